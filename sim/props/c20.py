"""C20: a registry holds each registered instance once and its default is the one last set."""
from .. import common, linear
from ..sched import Scheduler

ID = "C20"
CONFIGS = [("threads", 4), ("cold", 2), ("bytecode", 2), ("history", 2), ("interrupted", 4)]
RUNS = {"quick": 3000, "thorough": 100000}
RULE = ("one case = 1-4 threads making 2-8 requests each of one registry (parsers, serialisers, factories, or a fresh one): "
        "registering an instance, making it the default, asking for the default, asking whether it is registered, listing, and "
        "(parsers) asking the universal parser whether it can read a file name, over 1-4 instances of which some compare equal; "
        "every answer is checked for linearizability against a sequential registry; in 'interrupted' one request of one thread gets "
        "an asynchronous exception and is made again; non-trivial = a preemption happened, an exception was injected, or an instance "
        "was registered twice; distinct = different event log")
REAL = common.REAL
STUB = ["thread scheduler", "library locks (simulated)", "registered instances"]
ASSUMPTIONS = common.BASE_ASSUMPTIONS + [
    common.THREAD_ASSUMPTION,
    "an instance is registered before it becomes the default: the two need not be one atomic step",
    "an interrupted request may have happened, may not have happened, or may have registered the instance only"]


class Instance:
    """A parser / serialiser / factory that handles files of its own suffix only."""

    def __init__(self, name, same=None):
        self.name, self.same = name, same

    def can_parse(self, file):
        return file.endswith("." + self.name)

    def get_suffices(self):
        return [self.name]

    def __repr__(self):
        return self.name

    def __eq__(self, other):
        return self is other or (self.same is not None and getattr(other, "same", None) == self.same)

    def __hash__(self):
        return hash(self.same or self.name)


def apply(state, op, arg):
    default, held, eq = state
    same = dict(eq)

    def holds(x):
        return any(y == x or (same[x] and same.get(y) == same[x]) for y in held)
    if op == "register":
        return (default if default is not None else arg, held if holds(arg) else held | {arg}, eq), None
    if op == "set":
        return (arg, held if holds(arg) else held | {arg}, eq), None
    if op == "half":            # the first of the two steps of "register" and "set"
        return (default, held if holds(arg) else held | {arg}, eq), None
    if op == "default":
        return state, default
    if op == "list":
        return state, tuple(sorted(held))
    if op == "has":
        return state, holds(arg)
    if op == "reads":
        return state, arg in held
    raise ValueError(op)


def run(ctx):
    from opyenxes.utils.XRegistry import XRegistry
    from opyenxes.data_in.XParserRegistry import XParserRegistry
    from opyenxes.data_in.XUniversalParser import XUniversalParser
    from opyenxes.data_out.XSerializerRegistry import XSerializerRegistry
    from opyenxes.factory.XFactoryRegistry import XFactoryRegistry
    c = ctx.c
    if ctx.config == "bytecode":
        from .. import sched
        sched.use_instructions()
    kind = c.pick("plan", ["parsers", "serialisers", "factories", "fresh"] + ["fresh"] * 3 * (ctx.config == "interrupted"))
    fresh = XRegistry() if kind == "fresh" else None
    registry = {"parsers": XParserRegistry, "serialisers": XSerializerRegistry, "factories": XFactoryRegistry,
                "fresh": lambda: fresh}[kind]
    # names of the instances the library registers itself
    own = {"parsers": ["XMxmlParser", "XMxmlGZIPParser", "XesXmlParser", "XesXmlGZIPParser"],
           "serialisers": ["XMxmlSerializer", "XMxmlGZIPSerializer", "XesXmlSerializer", "XesXmlGZIPSerializer"],
           "factories": ["XFactory"], "fresh": []}[kind]
    names = ["p%d" % i for i in range(1 + c.draw("plan", 4))]
    twins = c.draw("plan", 3) == 0
    inst = {n: Instance(n, "twin" if twins and i < 2 else None) for i, n in enumerate(names)}
    # a registry that holds many others already
    crowd = [Instance("q%d" % i) for i in range(5 + c.draw("plan", 60))] if ctx.config != "cold" and c.draw("plan", 8) == 0 else []
    own = own + [x.name for x in crowd]
    inst.update((x.name, x) for x in crowd)
    eq = tuple(sorted([(n, x.same) for n, x in inst.items()] + [(n, None) for n in own]))
    label = lambda x: None if x is None else x.name if isinstance(x, Instance) else type(x).__name__
    h = linear.History()
    first = own[-1 - len(crowd)] if own[len(crowd):] else own[0] if own else None
    if ctx.config != "cold":
        registry()
    for x in crowd:
        registry().register(x)
    if crowd:
        ctx.probe("crowd")
        names.append(c.pick("plan", crowd).name)

    def request(who, op, name):
        if op in ("register", "set"):
            h.ops.append([who, "half", name, h.now, None, None])
        if op == "register":
            h.call(who, op, name, lambda: registry().register(inst[name]), lambda _: None)
        elif op == "set":
            h.call(who, op, name, lambda: registry().set_current_default(inst[name]), lambda _: None)
        elif op == "default":
            h.call(who, op, None, lambda: registry().current_default(), label)
        elif op == "list":
            got = h.call(who, op, None, lambda: registry().get_available(), lambda xs: tuple(sorted(label(x) for x in xs)))
            ctx.check(len(set(got)) == len(got), "twice", lambda: "%s: listed %r" % (who, got))
        elif op == "has":
            h.call(who, op, name, lambda: inst[name] in registry())
        else:
            h.call(who, op, name, lambda: XUniversalParser.can_parse("/x/some." + name))

    pool = c.pick("plan", [["register", "set", "default", "list", "has", "reads"], ["register", "set", "default"], ["register", "list", "has"],
                           ["register", "default"], ["set", "default", "list"], ["register", "reads", "list"]])
    if kind != "parsers":
        pool = [op for op in pool if op != "reads"]
    n = 1 if ctx.config == "history" else 2 + c.draw("plan", 3)
    plans = [[(c.pick("plan", pool), c.pick("plan", names)) for _ in range(2 + c.draw("plan", 14 if n == 1 else 5 if n < 4 else 3))]
             for _ in range(n)]
    victim = (c.draw("plan", n), c.draw("plan", 3)) if ctx.config == "interrupted" else None

    def body(who, plan, hit):
        def f():
            for i, (op, name) in enumerate(plan):
                if i == hit:
                    st = s.tasks[int(who[1:])]
                    st.inject_at = st.steps + 1 + c.draw("fault", 8)
                    st.inject_exc = c.pick("fault", [KeyboardInterrupt, MemoryError])
                    try:
                        request(who, op, name)
                        hurt = False
                    except (KeyboardInterrupt, MemoryError):
                        hurt = True         # the request is made again below
                    finally:
                        st.inject_at = None
                    if hurt:
                        ctx.fired("async-exception")
                        request(who, op, name)
                else:
                    request(who, op, name)
                ctx.log(who, op, name)
        return f
    if n == 1:
        body("t0", plans[0], None)()
        switches = 0
    else:
        s = Scheduler(ctx)
        for i in range(n):
            s.spawn("t%d" % i, body("t%d" % i, plans[i], victim[1] if victim and victim[0] == i else None))
        s.run()
        for t in s.tasks:
            if t.exc is not None:
                raise t.exc
        switches = s.switches
    for name in names:
        request("end", "has", name)
        if kind == "parsers":
            request("end", "reads", name)
    request("end", "list", None)
    request("end", "default", None)
    d = registry().current_default()
    ctx.check(d is None or d in registry(), "default-missing", lambda: "the default %r is not registered" % (d,))
    ctx.ops = len(h.ops)
    start = (first, frozenset(own), eq)
    ok = linear.linearizable(h, start, apply)
    if ok is None:
        ctx.probe("undecided")
    ctx.check(ok is not False, "not-linearizable", lambda: "no order of the requests on the %s registry explains the answers: %s" % (kind, h.text()))
    ctx.state(kind, plans, switches)
    ctx.probe("registry:" + kind)
    ctx.sample = "%s, %s registry, %d threads: %s" % (ctx.config, kind, n, h.text()[:300])
    done = [o[2] for o in h.ops if o[1] == "register"]
    ctx.nontrivial = switches > 0 or len(set(done)) < len(done) or "async-exception" in ctx.faults
