"""C18: the attribute name map loses no alias and always yields a name."""
from .. import common, linear
from ..sched import Scheduler
from . import c05

ID = "C18"
CONFIGS = [("warm", 4), ("cold", 3), ("bytecode", 2), ("history", 2)]
RUNS = {"quick": 3000, "thorough": 100000}
RULE = ("one case = 1-4 threads making 2-8 requests each of the name map: registering aliases (through the global map or a mapping, "
        "by key or attribute), mapping, safe mapping by name or mapping, fetching mappings, listing, printing, and creating standard "
        "extensions, over 1-3 keys and 1-4 mapping names; every answer is checked for linearizability against a dictionary; "
        "non-trivial = a preemption happened, or a key was registered twice; distinct = different event log")
REAL = common.REAL
STUB = ["thread scheduler", "library locks (simulated)"]
ASSUMPTIONS = common.BASE_ASSUMPTIONS + [
    common.THREAD_ASSUMPTION,
    "registering through the global map creates the mapping and then registers, and safe mapping reads the mapping and then the "
    "standard one: the two halves need not be one atomic step"]
MAPS = ["EN", "DE", "Mine", "X", "en", "mine", "de "]
KEYS = ["k:one", "k:two", "three"]


def apply(state, op, args):
    state_d = dict(state)
    if op == "reg":
        name, key, alias = args
        state_d[(name, key)] = alias
        return tuple(sorted(state_d.items())), None
    if op == "map":
        return state, state_d.get(args)
    raise ValueError(op)


def run(ctx):
    from opyenxes.factory.XFactory import XFactory
    from opyenxes.info.XGlobalAttributeNameMap import XGlobalAttributeNameMap
    c = ctx.c
    if ctx.config == "bytecode":
        from .. import sched
        sched.use_instructions()
    h = linear.History()
    maps = MAPS[:1 + c.draw("plan", 4)]
    if c.draw("plan", 4) == 0:
        maps = c.subset("plan", MAPS, 0.5) or MAPS[4:]          # names that differ in case or blanks are different names
    keys = KEYS[:1 + c.draw("plan", len(KEYS))]
    if c.draw("plan", 4) == 0:      # keys much like one another are different keys
        keys = c.pick("plan", [["k:one", "K:One", "k:ONE"], ["k:one", "one", "l:one"], ["three", "three ", "thre"], ["k:one", "k.one", ""]])
    if ctx.config == "warm":
        for prefix in c.subset("plan", sorted(c05.EXT)):
            c05.class_of(prefix)()
    languages = {"DE", "ES", "FR", "PT", "NL", "IT"}    # the standard extensions' own
    objects = {}                # mapping name -> mapping
    started, finished = {}, {}  # (mapping, key) -> aliases, in order
    created = set(["EN"])
    may_exist = set(["EN"])
    made = []                   # extensions whose names must be known
    n_alias = [0]
    blank = c.draw("plan", 8)

    def attr(key, form):
        return key if form == 0 else XFactory.create_attribute_literal(key, "v", None)

    def fetch(who, name):
        may_exist.add(name)
        m = XGlobalAttributeNameMap().get_mapping(name)
        ctx.check(m is not None and m.get_mapping_name() == name, "wrong-mapping", lambda: "%s asked for %r and got %r" % (who, name, m))
        first = objects.setdefault(name, m)
        ctx.check(first is m, "two-mappings", lambda: "%s got another mapping object for %r" % (who, name))
        created.add(name)
        return m

    def register(who, name, key, form, how):
        n_alias[0] += 1
        alias = "%s of %s no %d" % (key, name, n_alias[0])
        if n_alias[0] == blank:
            alias = ["", " ", alias + " ", "  " + alias, "\n" + alias][c.draw("plan", 5)]      # an alias like any other
        m = fetch(who, name) if how else None
        may_exist.add(name)
        started.setdefault((name, key), []).append(alias)

        def go():
            if how:
                m.register_mapping(attr(key, form), alias)
            else:
                XGlobalAttributeNameMap().register_mapping(name, key, alias)
        h.call(who, "reg", (name, key, alias), go)
        created.add(name)
        finished.setdefault((name, key), []).append(alias)

    def lookup(who, name, key, form, how):
        g = XGlobalAttributeNameMap()
        if name == "EN" and how:
            h.call(who, "map", ("EN", key), lambda: (g if how == 1 else g.get_standard_mapping()).map(attr(key, form)))
        else:
            m = fetch(who, name)
            h.call(who, "map", (name, key), lambda: m.map(attr(key, form)))

    def safely(who, name, key, form, how):
        g = XGlobalAttributeNameMap()
        arg = fetch(who, name) if how == 2 else name if how else "nowhere"
        if arg == "nowhere":
            name = None
        h.now += 1
        begin = h.now
        got = g.map_safely(attr(key, form), arg)
        h.now += 1
        ctx.check(isinstance(got, str), "no-name", lambda: "%s: safe mapping of %r with %r gave %r" % (who, key, arg, got))
        own = name is not None and got in started.get((name, key), ())
        en = got in started.get(("EN", key), ())
        ctx.check(own or en or got == key, "foreign-name", lambda: "%s: safe mapping of %r with %r gave %r" % (who, key, arg, got))
        if own:
            h.ops.append([who, "map", (name, key), begin, h.now, got])
        else:
            if name is not None and name != "EN":
                h.ops.append([who, "map", (name, key), begin, h.now, None])
            h.ops.append([who, "map", ("EN", key), begin, h.now, got if en else None])

    def listing(who, name, key, form, how):
        g = XGlobalAttributeNameMap()
        before = set(created)
        if how == 0:
            names = g.get_available_mapping_names()
        elif how == 1:
            names = [m.get_mapping_name() for m in g.get_available_mappings()]
        else:
            done = {k: v[0] for k, v in finished.items() if len(started[k]) == 1}
            text = str(g) if how == 2 else str(fetch(who, name))
            ctx.check(isinstance(text, str), "print", lambda: "%s: printed %r" % (who, text))
            for (m, k), alias in sorted(done.items()):
                if (how == 2 or m == name) and len(started[(m, k)]) == 1:
                    ctx.check("%s -> %s" % (k, alias) in text, "print", lambda: "%s: %r -> %r of %s is missing in %r" % (
                        who, k, alias, m, text))
            return
        ctx.check(len(set(names)) == len(names) and before <= set(names) <= may_exist | languages, "listing",
                  lambda: "%s: mappings %r are listed; %r exist, %r may" % (who, sorted(names), sorted(before), sorted(may_exist)))

    def extension(who, name, key, form, how):
        prefix = sorted(c05.EXT)[(form * 4 + how) % len(c05.EXT)]
        e = c05.class_of(prefix)()
        made.append(prefix)
        p = c05.extension_problem(prefix, e)
        ctx.check(p is None, "standard-name", lambda: "%s: extension %s: %s" % (who, prefix, p))

    kinds = {"register": register, "lookup": lookup, "safely": safely, "listing": listing, "extension": extension}
    pool = c.pick("plan", [["register", "lookup", "safely", "register", "listing"], ["register", "lookup"],
                           ["register", "safely"], ["register", "listing", "extension"], ["register", "extension", "lookup", "safely"]])
    many = []                   # what was registered long before
    if ctx.config in ("warm", "history") and c.draw("plan", 8) == 0:
        few = c.draw("plan", 2)
        for i in range(20 + c.draw("plan", 200)):
            name, key = (maps[0], "key %d" % i) if few else ("map %d" % i, keys[0])
            many.append((name, key, "many %d" % i))
            XGlobalAttributeNameMap().register_mapping(*many[-1])
            created.add(name)
            may_exist.add(name)
        ctx.probe("crowd")
    n = 1 if ctx.config == "history" else 2 + c.draw("plan", 3)
    plans = [[(c.pick("plan", pool), c.pick("plan", maps), c.pick("plan", keys), c.draw("plan", 2), c.draw("plan", 3 + (pool[-1] == "listing")))
              for _ in range(2 + c.draw("plan", 12 if n == 1 else 4))] for _ in range(n)]

    def body(who, plan):
        def f():
            for op, name, key, form, how in plan:
                kinds[op](who, name, key, form, how)
                ctx.log(who, op, name, key)
        return f
    if n == 1:
        body("t0", plans[0])()
        switches = 0
    else:
        s = Scheduler(ctx)
        for i in range(n):
            s.spawn("t%d" % i, body("t%d" % i, plans[i]))
        s.run()
        for t in s.tasks:
            if t.exc is not None:
                raise t.exc
        switches = s.switches
    for name in maps:           # what stands at the end
        for key in keys:
            lookup("end", name, key, 0, 0)
            safely("end", name, key, 1, 2)
            safely("end", name, key, 0, 1)
            safely("end", name, key, 0, 0)
    for name, key, alias in many:
        got = (XGlobalAttributeNameMap().get_mapping(name).map(key), XGlobalAttributeNameMap().map_safely(key, name))
        ctx.check(got == (alias, alias), "alias-lost", lambda: "%r of %r, registered as %r before, is found as %r" % (key, name, alias, got))
    for how in range(4):
        listing("end", maps[-1], keys[0], 0, how)
    g = XGlobalAttributeNameMap()
    ctx.check(g.get_mapping("EN") is g.get_standard_mapping(), "wrong-mapping", "the standard mapping is not the EN mapping")
    for prefix in made:
        p = c05.extension_problem(prefix, c05.class_of(prefix)())
        ctx.check(p is None, "standard-name", lambda: "at the end, extension %s: %s" % (prefix, p))
    ctx.ops = len(h.ops)
    ok = linear.linearizable(h, (), apply)
    if ok is None:
        ctx.probe("undecided")
    ctx.check(ok is not False, "not-linearizable", lambda: "no order of the requests explains the answers: " + h.text())
    ctx.state(plans, switches)
    ctx.sample = "%s, %d threads: %s" % (ctx.config, n, plans)
    ctx.nontrivial = switches > 0 or any(len(v) > 1 for v in started.values())
