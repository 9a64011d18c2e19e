"""C06: extension lookups agree with one another under concurrent registration."""
from urllib.parse import urlparse

from .. import common, linear
from ..sched import Scheduler

ID = "C06"
CONFIGS = [("warm", 4), ("cold", 2), ("bytecode", 1)]
RUNS = {"quick": 2400, "thorough": 80000}
RULE = ("one case = 2-4 threads, each doing 2-6 registrations (new URIs, the same object again, another object with the same "
        "URI, or one overriding a standard extension) and lookups by URI, name, prefix, index and of the index, one "
        "by one or several of one extension in a row, under a "
        "seeded schedule, some with the first creation of the manager; the history is checked for linearizability and the "
        "final state for agreement of all lookups; non-trivial = at least one preemption; distinct = different event log")
REAL = common.REAL
STUB = ["thread scheduler", "library locks (simulated)", "clock", "entropy source"]
ASSUMPTIONS = common.BASE_ASSUMPTIONS + [common.THREAD_ASSUMPTION,
                                         "extensions with different URIs have different names and prefixes (which may differ in case only)"]
STD = [("Concept", "concept"), ("Cost", "cost"), ("Identity", "identity"), ("Lifecycle", "lifecycle"), ("Micro", "micro"),
       ("Organizational", "org"), ("Semantic", "semantic"), ("Time", "time")]


def apply(state, op, args):
    """state: tuple of slots (uri, name, prefix, object label)."""
    if op == "register":
        uri = args[0]
        for i, slot in enumerate(state):
            if slot[0] == uri:
                return state[:i] + (args,) + state[i + 1:], None
        return state + (args,), None
    if op == "index":
        return state, next((i for i, s in enumerate(state) if s[0] == args), -1)
    if op == "at":
        return state, state[args][3] if 0 <= args < len(state) else None
    field = {"uri": 0, "name": 1, "prefix": 2}[op]
    return state, next((s[3] for s in state if s[field] == args), None)


def run(ctx):
    from opyenxes.extension.XExtension import XExtension
    from opyenxes.extension.XExtensionManager import XExtensionManager
    c = ctx.c
    if ctx.config == "bytecode":
        from .. import sched
        sched.use_instructions()
    labels = {}
    initial, many = [], []
    exts = []                   # (label, uri string, name, prefix, object)

    def add(uri, name, prefix):
        label = "x%d" % len(exts)
        e = XExtension(name, prefix, urlparse(uri))
        labels[id(e)] = label
        exts.append((uri, name, prefix, label, e))
    for i in range(1 + c.draw("plan", 4)):
        uri = "http://sim/e%d.xesext" % i
        add(uri, "N%d" % i, "p%d" % i)
        for j in range(c.draw("plan", 3)):
            # another object for the same URI; sometimes with a new name or prefix
            add(uri, "N%d" % i if c.draw("plan", 2) else "N%d.%d" % (i, j), "p%d" % i if c.draw("plan", 2) else "p%d.%d" % (i, j))
    if c.draw("plan", 3) == 2:      # others whose names and prefixes are those of the first, but for case, a blank or an end
        how = c.pick("plan", [str.swapcase, lambda s: s + " ", lambda s: s + "x", lambda s: s[:-1]])
        add(c.pick("plan", ["http://sim/E0.xesext", "http://sim/e0.xesext#f", "http://sim/e0.xesext/", "https://sim/e0.xesext", "http://sim/e0.xesext?q"]),
            how("N0"), how("p0"))
    if c.draw("plan", 8) == 7:
        name, prefix = c.pick("plan", STD)
        add("http://sim/near.xesext", c.pick("plan", [name.lower(), name.upper(), name + " "]), c.pick("plan", [prefix.upper(), prefix.title(), prefix + "s"]))
    if c.draw("plan", 4) == 3:
        name, prefix = c.pick("plan", STD)
        add("http://www.xes-standard.org/%s.xesext" % prefix, name, prefix)
    std_uris = ["http://www.xes-standard.org/%s.xesext" % p for _, p in STD]

    def setup():
        m = XExtensionManager()
        for i, (name, prefix) in enumerate(STD):
            e = m.get_by_index(i)
            labels[id(e)] = prefix
            ctx.check(e is not None and e.get_prefix() == prefix, "standard", lambda: "index %d holds %r" % (i, e))
            initial.append((std_uris[i], name, prefix, prefix))
    if ctx.config != "cold":
        setup()
        m = XExtensionManager()
        if c.draw("plan", 8) == 0:                        # many others
            for i in range(4 + c.draw("plan", 40)):
                x = ("http://many.org/m%d.xesext" % i, "Many%d" % i, "many%d" % i, "m%d" % i, XExtension("Many%d" % i, "many%d" % i, urlparse(
                    "http://many.org/m%d.xesext" % i)))
                labels[id(x[4])] = x[3]
                many.append(x[4])
                m.register(x[4])
                initial.append(x[:4])
        for _ in range(c.draw("plan", 3)):                # registered before the threads start
            x = c.pick("plan", exts)
            m.register(x[4])
            state, _ = apply(tuple(initial), "register", x[:4])
            initial[:] = list(state)
    h = linear.History()
    s = Scheduler(ctx)
    label = lambda e: None if e is None else labels.get(id(e), ("unknown", getattr(e, "get_prefix", lambda: e)()))

    def op_of():
        k = c.draw("plan", 11)
        if k < 3:
            return ("register", c.pick("plan", exts))
        if k > 7:
            return ("every", c.pick("plan", exts), c.shuffle("plan", ["uri", "name", "prefix", "index"])[:2 + c.draw("plan", 3)])
        if k == 3:
            return ("index", c.pick("plan", exts))
        if k == 4:
            return ("at", c.draw("plan", 4) + max(7, len(initial) - 1))
        x = c.pick("plan", exts)
        if k == 5:
            return ("uri", x)
        if k == 6:
            return ("name", x)
        return ("prefix", x)

    def calls(ops):
        for op in ops:
            if op[0] == "every":        # one extension looked up in several ways, one after the other
                yield from ((kind, op[1]) for kind in op[2])
            else:
                yield op

    def body(me, ops):
        def f():
            for kind, x in calls(ops):
                if kind == "register":
                    h.call(me, kind, x[:4], lambda: XExtensionManager().register(x[4]))
                elif kind == "index":
                    h.call(me, kind, x[0], lambda: XExtensionManager().get_index(x[4]))
                elif kind == "at":
                    h.call(me, kind, x, lambda: XExtensionManager().get_by_index(x), label)
                elif kind == "uri":
                    h.call(me, kind, x[0], lambda: XExtensionManager().get_by_uri(urlparse(x[0])), label)
                elif kind == "name":
                    h.call(me, kind, x[1], lambda: XExtensionManager().get_by_name(x[1]), label)
                else:
                    h.call(me, kind, x[2], lambda: XExtensionManager().get_by_prefix(x[2]), label)
                ctx.log(me, h.ops[-1][1])
        return f
    n = 2 + c.draw("plan", 3)
    for i in range(n):
        s.spawn("t%d" % i, body("t%d" % i, [op_of() for _ in range(2 + c.draw("plan", 5 if n < 4 else 3))]))
    s.run()
    for t in s.tasks:
        if t.exc is not None:
            raise t.exc
    m = XExtensionManager()
    if ctx.config == "cold":
        # which objects the standard extensions are is known only now
        for i in range(8):
            if m.get_by_index(i) is not None and id(m.get_by_index(i)) not in labels:
                labels[id(m.get_by_index(i))] = STD[i][1]
        initial[:] = [(std_uris[i], name, prefix, prefix) for i, (name, prefix) in enumerate(STD)]
        for o in h.ops:
            if isinstance(o[5], tuple) and o[5][0] == "unknown":
                o[5] = o[5][1]          # a standard extension, known by its prefix
    # the final state as one more set of reads after everything
    touched = {o[2][0] for o in h.ops if o[1] == "register"} | {x[0] for x in initial}
    for uri in sorted(touched):
        h.call("end", "uri", uri, lambda: m.get_by_uri(urlparse(uri)), label)
    for i in range(len(touched) + 1):
        h.call("end", "at", i, lambda: m.get_by_index(i), label)
    ctx.ops = len(h.ops)
    ok = linear.linearizable(h, tuple(initial), apply)
    if ok is None:
        ctx.probe("undecided")
    ctx.check(ok is not False, "not-linearizable", lambda: "no order of the operations explains what they returned: " + h.text())
    # agreement of the four lookups
    seen = []
    for i in range(len(touched)):
        e = m.get_by_index(i)
        ctx.check(e is not None, "agreement", lambda: "no extension at index %d of %d" % (i, len(touched)))
        agree = (m.get_by_uri(e.get_uri()) is e, m.get_by_name(e.get_name()) is e, m.get_by_prefix(e.get_prefix()) is e,
                 m.get_index(e) == i)
        ctx.check(all(agree), "agreement", lambda: "lookups of index %d (%s) by uri, name, prefix, index agree: %r" % (
            i, e.get_prefix(), agree))
        ctx.check(e.get_uri().geturl() not in seen, "agreement", lambda: "%s has two entries" % e.get_uri().geturl())
        seen.append(e.get_uri().geturl())
    ctx.check(m.get_by_index(len(touched)) is None and m.get_by_index(-1) is None, "agreement", "an entry too many")
    ctx.sample = "%d threads: %s" % (n, h.text()[:400])
    ctx.nontrivial = s.switches > 0
