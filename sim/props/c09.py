"""C09: a parser builds its logs with the factory it was given."""
import gzip

from .. import common, linear, model
from ..sched import Scheduler

ID = "C09"
CONFIGS = [("history", 1), ("threads", 3), ("bytecode", 1)]
RUNS = {"quick": 2000, "thorough": 50000}
RULE = ("one case = 1-4 threads, each doing 2-6 of: make a factory the default, register a factory, ask for the default, create "
        "a parser of any of the four kinds with or without a factory, parse a random file with a parser of its own or one "
        "created by another thread, under a seeded schedule; every object a factory makes carries the factory's tag; the "
        "defaults seen are checked for linearizability; non-trivial = the default changed at least once while a parser existed, "
        "or a preemption happened; distinct = different event log")
REAL = common.REAL
STUB = ["thread scheduler", "library locks (simulated)", "clock", "entropy source", "factories (tagging subclasses of XFactory)"]
ASSUMPTIONS = common.BASE_ASSUMPTIONS + [common.THREAD_ASSUMPTION,
                                         "attributes an MXML parser copies from the prototypes of standard extensions are exempt"]


def tagging(tag):
    from opyenxes.factory.XFactory import XFactory

    def wrap(name):
        orig = getattr(XFactory, name)

        def f(self, *a, **k):
            out = orig(*a, **k)
            out.sim_tag = tag
            return out
        f.__name__ = name
        return f
    names = [n for n in dir(XFactory) if n.startswith("create_") and n != "create_attribute_map"]
    cls = type("Factory_" + tag, (XFactory,), dict({n: wrap(n) for n in names}, sim_tag=tag))
    return cls()


def tags(logs, kind):
    """[(path, tag)] of every element the parser produced itself."""
    out = []

    def attrs(el, path, depth=0):
        seen = list(el.get_attributes().values())
        for a in seen:
            if kind.startswith("mxml") and a.get_extension() is not None:
                continue
            out.append((path + "/" + a.get_key(), getattr(a, "sim_tag", "default")))
            if depth < 8:
                attrs(a, path + "/" + a.get_key(), depth + 1)
    for log in logs:
        out.append(("log", getattr(log, "sim_tag", "default")))
        attrs(log, "log")
        if not kind.startswith("mxml"):
            for a in list(log.get_global_trace_attributes()) + list(log.get_global_event_attributes()):
                out.append(("global " + a.get_key(), getattr(a, "sim_tag", "default")))
                attrs(a, "global " + a.get_key())
        for i, t in enumerate(log):
            out.append(("trace %d" % i, getattr(t, "sim_tag", "default")))
            attrs(t, "trace %d" % i)
            for j, e in enumerate(t):
                out.append(("event %d.%d" % (i, j), getattr(e, "sim_tag", "default")))
                attrs(e, "event %d.%d" % (i, j))
    return out


def apply(state, op, arg):
    default, available = state
    if op == "set":
        return (arg, available | {arg}), None
    if op == "register":
        return (default, available | {arg}), None
    if op == "default":
        return state, default
    return state, arg in available          # "has"


def run(ctx):
    from opyenxes.factory.XFactoryRegistry import XFactoryRegistry
    c = ctx.c
    fs = common.new_fs(ctx)
    if ctx.config == "bytecode":
        from .. import sched
        sched.use_instructions()
    kinds = ["xes", "xes.gz", "mxml", "mxml.gz"]
    factories = {t: tagging(t) for t in ["f%d" % i for i in range(1 + c.draw("plan", 3))]}
    files = []
    for kind in kinds:
        g = model.Gen(c, rich=0.3)
        small = 1 + g.d(2)
        spec = g.mxml_log(small, small) if kind.startswith("mxml") else g.log(small, small)
        text = (model.mxml_text(spec) if kind.startswith("mxml") else model.xes_text(spec)).encode("utf-8")
        files.append((kind, fs.put("f." + kind, gzip.compress(text, mtime=0) if kind.endswith("gz") else text),
                      None if kind.startswith("mxml") else model.canon(spec)))
    h = linear.History()
    shared = []                 # (parser, kind, path, want tag or None if it must be linearized, record)
    cold = bool(c.draw("plan", 2))
    if not cold:
        XFactoryRegistry().current_default()
    if c.draw("plan", 3) == 0:          # touched before the threads start
        t = c.pick("plan", sorted(factories))
        h.call("main", "set", t, lambda: XFactoryRegistry().set_current_default(factories[t]))
    parsed = []
    label = lambda f: getattr(f, "sim_tag", "default")
    n = 1 if ctx.config == "history" else 2 + c.draw("plan", 3)

    def plan_ops():
        ops = []
        for _ in range(2 + c.draw("plan", 5 if n < 4 else 3)):
            ops.append((c.pick("plan", ["parser", "parse", "set", "register", "default", "parse", "has"]),
                        c.pick("plan", sorted(factories)), c.draw("plan", 4), c.draw("plan", 2), c.draw("plan", 8)))
        return ops

    def body(me, ops):
        def f():
            for op, tag, which, given, pick in ops:
                reg = XFactoryRegistry
                if op == "set":
                    h.call(me, "set", tag, lambda: reg().set_current_default(factories[tag]))
                elif op == "register":
                    h.call(me, "register", tag, lambda: reg().register(factories[tag]))
                elif op == "default":
                    h.call(me, "default", None, lambda: reg().current_default(), label)
                elif op == "has":
                    h.call(me, "has", tag, lambda: factories[tag] in reg().get_available())
                elif op == "parser" or not shared:
                    kind, path, want = files[which]
                    pc = common.tools(kind)[1]
                    if given:
                        p, rec = pc(factories[tag]), tag
                    else:
                        h.call(me, "default", None, lambda: pc(), lambda p: p)
                        rec = h.ops.index(next(o for o in reversed(h.ops) if o[0] == me))
                        p = h.ops[rec][5]
                        h.ops[rec][5] = ("parser", rec)     # its tag is known after parsing
                    shared.append((p, kind, path, rec, want))
                    ctx.log(me, "parser", kind, given)
                else:
                    p, kind, path, rec, want = shared[pick % len(shared)]
                    logs = common.read_log(p, path, "text" if given else "binary")
                    parsed.append((kind, rec, tags(logs, kind), me, want, [model.observe(x) for x in logs]))
                    ctx.log(me, "parsed", kind)
        return f
    if n == 1:
        body("t0", plan_ops())()
        switches = 0
    else:
        s = Scheduler(ctx)
        for i in range(n):
            s.spawn("t%d" % i, body("t%d" % i, plan_ops()))
        s.run()
        for t in s.tasks:
            if t.exc is not None:
                raise t.exc
        switches = s.switches
    for p, kind, path, rec, want in shared:           # every parser is used at least once, at the end
        logs = common.read_log(p, path)
        parsed.append((kind, rec, tags(logs, kind), "end", want, [model.observe(x) for x in logs]))
    ctx.ops = len(h.ops) + len(parsed)
    of_parser = {}
    for kind, rec, seen, me, want, got in parsed:
        kinds_seen = {t for _, t in seen}
        if isinstance(rec, str):
            bad = [x for x in seen if x[1] != rec]
            ctx.check(not bad, "wrong-factory", lambda: "a %s parser created with %s used another factory: %r" % (kind, rec, bad[:4]))
        else:
            ctx.check(len(kinds_seen) == 1, "mixed-factories", lambda: "a %s parser without a factory mixed factories: %r" % (
                kind, sorted(kinds_seen)))
            t = kinds_seen.pop()
            ctx.check(of_parser.setdefault(rec, t) == t, "mixed-factories", lambda: "a %s parser without a factory used %s, later %s" % (
                kind, of_parser[rec], t))
        if want is not None:
            d = model.diff((want,), tuple(got))
            ctx.check(d is None, "differs", lambda: "parsed log differs: %s" % d)
        ctx.probe("parsed:" + kind)
    for rec, t in of_parser.items():
        h.ops[rec][5] = t
    h.call("end", "default", None, lambda: XFactoryRegistry().current_default(), label)
    for t in sorted(factories):
        h.call("end", "has", t, lambda: factories[t] in XFactoryRegistry().get_available())
    ok = linear.linearizable(h, ("default", frozenset(["default"])), apply)
    if ok is None:
        ctx.probe("undecided")
    ctx.check(ok is not False, "not-linearizable", lambda: "no order of the operations explains the factories seen: " + h.text())
    ctx.sample = "%d threads: %s" % (n, h.text()[:400])
    changed = [o for o in h.ops if o[1] == "set"]
    ctx.nontrivial = switches > 0 or bool(changed and shared)
    if n == 1:
        ctx.state([o[1:3] for o in h.ops], len(shared))
