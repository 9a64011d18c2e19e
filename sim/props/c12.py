"""C12: a clone shares nothing that can be modified with the original."""
import uuid

from .. import common, model
from ..sched import Scheduler

ID = "C12"
CONFIGS = [("interleaved", 4), ("threads", 2), ("bytecode", 1)]
RUNS = {"quick": 2500, "thorough": 60000}
RULE = ("one case = a random log (or a trace, event or attribute of it) and 1-4 clones of it and of clones, edited 6-30 times in "
        "a seeded interleaving through every mutator of the model (values, nested attributes, collections, attribute maps, events, "
        "traces, globals, classifiers, extensions, features, ids, ordered insertion, accessors of standard extensions, log "
        "summaries), in the threads configurations by 2-4 preempted threads that clone one log and edit their own copies; after "
        "each edit every other copy and all extension prototypes must look as before; half the edits aim at objects reachable "
        "from two copies, if there are any; non-trivial = an edit happened after a clone; distinct = different event log")
STATE_MEASURE = "hash of the sequence of (copy edited, kind of edit), or of the context switches"
REAL = common.REAL
STUB = ["thread scheduler", "library locks (simulated)", "entropy source"]
ASSUMPTIONS = common.BASE_ASSUMPTIONS + [common.THREAD_ASSUMPTION,
                                         "extensions, classifiers and the values of features are shared by reference, as designed"]

VALUE_TYPES = ["string", "date", "int", "float", "boolean", "id"]


# ---------------------------------------------------------------- observing
def see_attr(a, depth=0):
    """Everything an attribute shows: map and members alike."""
    typ = model.type_of(a)
    if depth > 12:
        return "deep"
    if typ in ("list", "container"):
        v = tuple(see_attr(x, depth + 1) for x in a.get_collection())
    else:
        v = a.get_value()
        v = date_of(v) if typ == "date" else str(v.get_uuid()) if typ == "id" else repr(v)
    ext = a.get_extension()
    return (typ, a.get_key(), v, ext.get_name() if ext is not None else None, see_map(a, depth + 1))


def date_of(v):
    """A date in full: to the microsecond, in its zone."""
    return "%s %s" % (v.isoformat(), v.utcoffset())


def see_map(el, depth=0):
    return tuple(sorted((k, see_attr(x, depth)) for k, x in el.get_attributes().items()))


def see_ext(e):
    return (e.get_name(), str(e.get_uri()))


def see(kind, x, ids=True):
    if kind == "attr":
        return (see_attr(x),)
    if kind == "map":
        return tuple(sorted((k, see_attr(a)) for k, a in x.items()))
    if kind in ("event", "wrapped"):
        return (see_map(x),) + ((str(x.get_id()),) if ids else ())
    if kind == "trace":
        return (see_map(x),) + tuple(see("event", e, ids) for e in x)
    return (see_map(x), tuple(sorted(see_ext(e) for e in x.get_extensions())),
            tuple((c.name(), tuple(c.get_defining_attribute_keys())) for c in x.get_classifiers()),
            tuple(see_attr(a) for a in x.get_global_trace_attributes()),
            tuple(see_attr(a) for a in x.get_global_event_attributes()),
            tuple(sorted((k, repr(v)) for k, v in x.get_features().items()))) + tuple(see("trace", t, ids) for t in x)


def protos():
    from opyenxes.extension.XExtensionManager import XExtensionManager
    out = []
    for prefix in model.STD_PREFIXES:
        e = XExtensionManager().get_by_prefix(prefix)
        for level in ("log", "trace", "event", "meta"):
            got = sorted(repr(see_attr(a)) for a in getattr(e, "get_%s_attributes" % level)())
            out.append((prefix, level, tuple(got)))
        for name in sorted(vars(e)):
            if name.startswith("ATTR_") and hasattr(vars(e)[name], "get_key"):
                out.append((prefix, name, repr(see_attr(vars(e)[name]))))
    return tuple(out)


def walk(kind, x):
    """[(how to mutate it, object)] of everything reachable that can be modified."""
    out = []

    def attr(a, depth=0):
        out.append(("attr", a))
        if depth > 8:
            return
        out.append(("map", a.get_attributes()))
        for s in list(a.get_attributes().values()):
            attr(s, depth + 1)
        if model.type_of(a) in ("list", "container"):
            for s in a.get_collection():
                attr(s, depth + 1)

    def element(e):
        out.append(("map", e.get_attributes()))
        for a in list(e.get_attributes().values()):
            attr(a)
    if kind == "attr":
        attr(x)
        return out
    if kind == "map":
        out.append(("map", x))
        for a in list(x.values()):
            attr(a)
        return out
    out.append((kind, x))
    element(x)
    if kind == "trace":
        for e in x:
            out.append(("event", e))
            element(e)
    if kind == "log":
        out.append(("list", x.get_global_trace_attributes()))
        out.append(("list", x.get_global_event_attributes()))
        out.append(("classifiers", x.get_classifiers()))
        out.append(("extensions", x.get_extensions()))
        out.append(("features", x.get_features()))
        for a in list(x.get_global_trace_attributes()) + list(x.get_global_event_attributes()):
            attr(a)
        for t in x:
            out.append(("trace", t))
            element(t)
            for e in t:
                out.append(("event", e))
                element(e)
    return out


def choose(c, targets):
    """Any object, or first a kind of object and then one of that kind."""
    if c.draw("plan", 2):
        kind = c.pick("plan", sorted({k for k, _ in targets}))
        targets = [t for t in targets if t[0] == kind]
    return c.pick("plan", targets)


# ---------------------------------------------------------------- editing
class Editor:
    def __init__(self, ctx, who):
        from opyenxes.factory.XFactory import XFactory
        self.ctx = ctx
        self.c = ctx.c
        self.f = XFactory
        self.who = who
        self.n = 0
        self.g = model.Gen(ctx.c, stream="plan", rich=0.2)

    def d(self, n):
        return self.c.draw("plan", n)

    def new_attr(self, key=None):
        self.n += 1
        typ = self.c.pick("plan", VALUE_TYPES + ["list", "container"])
        spec = (typ, key or "new-%s-%d" % (self.who, self.n), self.g.value(typ),
                (("string", "in", "side", ()),) if self.d(3) == 0 else ())
        return model.build_attr(self.f, spec)

    def edit(self, kind, x):
        """One edit of one object through its public API; returns its description."""
        f, d = self.f, self.d
        self.n += 1
        tag = "%s-%d" % (self.who, self.n)
        if kind == "attr":
            typ = model.type_of(x)
            k = d(3)
            if typ in ("list", "container") and k != 2:
                a = self.new_attr()
                x.add_to_collection(a)
                if d(3) == 0:
                    x.get_attributes()[a.get_key()] = a
                return "collection+"
            if k == 0 and typ in VALUE_TYPES:
                self.set_value(x, typ, tag)
                return "value"
            if k == 1:
                x.set_attributes(x.get_attributes().clone())
                x.get_attributes()["re-" + tag] = self.new_attr("re-" + tag)
                return "set_attributes"
            x.get_attributes()["sub-" + tag] = self.new_attr("sub-" + tag)
            return "nested+"
        if kind == "map":
            k = d(5)
            keys = sorted(x)
            if k == 0 or not keys:
                x["m-" + tag] = self.new_attr("m-" + tag)
                return "map+"
            key = keys[d(len(keys))]
            if k == 1:
                del x[key]
                return "map-"
            if k == 2:
                x[key] = self.new_attr(key)
                return "map="
            if k == 3:
                x.clear()
                x["only-" + tag] = self.new_attr("only-" + tag)
                return "clear"
            return self.edit("attr", x[key])
        if kind == "list":
            if x and d(3) == 2:
                x.pop(d(len(x)))
                return "globals-"
            x.append(self.new_attr())
            return "globals+"
        if kind == "classifiers":
            from opyenxes.classification.XEventAttributeClassifier import XEventAttributeClassifier
            if x and d(3) == 2:
                x.pop()
                return "classifiers-"
            x.append(XEventAttributeClassifier("c-" + tag, ["concept:name", tag]))
            return "classifiers+"
        if kind == "extensions":
            from opyenxes.extension.XExtensionManager import XExtensionManager
            e = XExtensionManager().get_by_prefix(model.STD_PREFIXES[d(8)])
            if e in x:
                x.discard(e)
                return "extensions-"
            x.add(e)
            return "extensions+"
        if kind == "features":
            x["xes.f-" + tag] = tag
            return "features"
        if kind == "wrapped":
            k = d(3)
            if k == 0:
                x.set_name("w-" + tag)
            elif k == 1:
                x.set_resource("w-" + tag)
            else:
                return self.edit("map", x.get_attributes())
            return "wrapped"
        if kind == "event":
            k = d(4)
            if k == 0:
                from opyenxes.id.XIDFactory import XIDFactory
                x.set_id(XIDFactory.create_id())
                return "event id"
            if k == 1:
                return self.accessor(x, "event", tag)
            if k == 2:
                m = x.get_attributes().clone()
                m["re-" + tag] = self.new_attr("re-" + tag)
                x.set_attributes(m)
                return "event set_attributes"
            return self.edit("map", x.get_attributes())
        if kind == "trace":
            k = d(6)
            if k == 0 or not len(x):
                e = f.create_event()
                e.get_attributes()["k"] = self.new_attr("k")
                x.append(e)
                return "event+"
            if k == 1:
                x.pop(d(len(x)))
                return "event-"
            if k == 2:
                x.reverse()
                return "events reversed"
            if k == 3:
                e = x[d(len(x))].clone()
                e.get_attributes()["time:timestamp"] = f.create_attribute_timestamp("time:timestamp", 1000 * d(100), None)
                if all("time:timestamp" not in y.get_attributes() or
                       model.type_of(y.get_attributes()["time:timestamp"]) == "date" for y in x):
                    x.insert_ordered(e)
                    return "insert_ordered"
                x.insert(0, e)
                return "insert"
            if k == 4:
                return self.accessor(x, "trace", tag)
            return self.edit("map", x.get_attributes())
        k = d(7)
        if k == 0 or not len(x):
            t = f.create_trace()
            t.get_attributes()["k"] = self.new_attr("k")
            x.append(t)
            return "trace+"
        if k == 1:
            x.pop(d(len(x)))
            return "trace-"
        if k == 2:
            x.reverse()
            return "traces reversed"
        if k == 3:
            x.set_features("xes.s-" + tag, tag)
            return "set_features"
        if k == 4:
            return self.accessor(x, "log", tag)
        if k == 5:
            from opyenxes.classification.XEventNameClassifier import XEventNameClassifier
            x.set_info(XEventNameClassifier(), None)
            return "set_info"
        return self.edit("map", x.get_attributes())

    def set_value(self, a, typ, tag):
        if typ == "date":
            v = 1000 * self.d(1 << 32)
            a.set_value_millis(v)
        elif typ == "id":
            from opyenxes.id.XID import XID
            v = uuid.UUID(int=1 + self.d(1 << 64))
            if self.d(3) == 0:
                a.set_value(XID(v))
            else:
                a.get_value().set_uuid(v)
        else:
            v = "v-" + tag if typ == "string" else self.d(1 << 40) if typ == "int" else self.d(1 << 40) / 4.0 if typ == "float" \
                else not a.get_value()
            a.set_value(v)
        got = a.get_value_millis() if typ == "date" else a.get_value().get_uuid() if typ == "id" else a.get_value()
        self.ctx.check(got == v, "edit-lost", lambda: "set to %r, the %s attribute holds %r" % (v, typ, got))

    def accessor(self, x, level, tag):
        from opyenxes.extension.std.XConceptExtension import XConceptExtension
        from opyenxes.extension.std.XTimeExtension import XTimeExtension
        from opyenxes.extension.std.XOrganizationalExtension import XOrganizationalExtension
        from opyenxes.extension.std.XLifecycleExtension import XLifecycleExtension
        from opyenxes.extension.std.XCostExtension import XCostExtension
        from opyenxes.extension.std.XIdentityExtension import XIdentityExtension
        from opyenxes.extension.std.XMicroExtension import XMicroExtension
        from opyenxes.extension.std.XSemanticExtension import XSemanticExtension
        k = self.d(8)
        if k == 1 and level == "event":
            XTimeExtension().assign_timestamp(x, 1000 * self.d(1 << 32))
        elif k == 2 and level == "event":
            XOrganizationalExtension().assign_resource(x, "r-" + tag)
        elif k == 3 and level == "event":
            XLifecycleExtension().assign_transition(x, "t-" + tag)
        elif k == 3 and level == "log":
            XLifecycleExtension().assign_model(x, "m-" + tag)
        elif k == 4:
            XCostExtension().assign_total(x, self.d(1 << 20) / 8.0)
        elif k == 5:
            from opyenxes.id.XID import XID
            XIdentityExtension().assign_id(x, XID(uuid.UUID(int=1 + self.d(1 << 64))))
        elif k == 6 and level == "event":
            XMicroExtension().assign_length(x, self.d(1 << 20))
        elif k == 7:
            XSemanticExtension().assign_model_references(x, ["s-" + tag])
        else:
            XConceptExtension().assign_name(x, "n-" + tag)
        return "accessor"


def first_difference(a, b, path=""):
    if type(a) is not type(b) or not isinstance(a, tuple):
        return "" if a == b else "%s: was %.120r, now %.120r" % (path, a, b)
    if len(a) != len(b):
        return "%s: was %d items, now %d: %.200r / %.200r" % (path, len(a), len(b), a, b)
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return first_difference(x, y, "%s[%d]" % (path, i))
    return ""


def make(ctx, f):
    """A log to clone, with every kind of part, its attributes carrying extensions."""
    from opyenxes.extension.XExtensionManager import XExtensionManager
    c = ctx.c
    g = model.Gen(c, rich=0.6)
    m = XExtensionManager()
    spec = g.log(2, 2, scale=0.02 if ctx.config == "interleaved" else 0.0)
    if not spec["traces"]:
        spec["traces"] = [{"attrs": g.attrs(), "events": [{"attrs": g.attrs()}]}]

    def ext_of(key):
        return m.get_by_prefix(key[:key.index(":")]) if ":" in key else None
    log = model.build_log(spec, f, m, ext_of)
    if g.d(2):
        log.set_features("xes.features", "nested-attributes")
    # an attribute that is a member of a collection and stands in the map as well, as a parser may leave it
    for kind, x in walk("log", log):
        if kind == "attr" and model.type_of(x) in ("list", "container"):
            if g.d(3) == 0 and x.get_collection():
                a = x.get_collection()[0]
                x.get_attributes()[a.get_key()] = a
            if g.d(3) == 0:
                x.get_attributes()["extra"] = model.build_attr(f, ("string", "extra", "x", ()))
    if g.d(3) == 0:     # an attribute that stands in a map under another key than its own
        maps = [x for kind, x in walk("log", log) if kind == "map"]
        at = maps[g.d(len(maps))]
        own = c.pick("plan", sorted(at) + ["own"])
        typ = c.pick("plan", VALUE_TYPES)
        at["under"] = model.build_attr(f, (typ, own, g.value(typ), ()))
    for kind, x in walk("log", log):
        if kind == "attr" and model.type_of(x) == "date" and g.d(3) == 0:       # finer than a millisecond, or of no zone
            v = x.get_value().replace(microsecond=g.d(1000000))
            x.set_value(v.replace(tzinfo=None) if g.d(3) == 0 else v)
    k = g.d(16)         # one object that stands in two places
    t = log[g.d(len(log))]
    if k == 0:
        log.insert(g.d(len(log) + 1), t)
    elif k == 1 and len(t):
        t.insert(g.d(len(t) + 1), t[g.d(len(t))])
    elif k == 2 and len(t):
        log[g.d(len(log))].append(t[g.d(len(t))])
    elif k == 3:
        for a in list(t.get_attributes().values()):
            log.get_attributes()[a.get_key()] = a
    return spec, log


def pick_part(c, log):
    """(kind, object) to clone: mostly the whole log."""
    k = c.draw("plan", 7)
    parts = walk("log", log)
    if k == 6:
        from opyenxes.extension.std.XExtendedEvent import XExtendedEvent
        events = [p[1] for p in parts if p[0] == "event"]
        return ("wrapped", XExtendedEvent.wrap(c.pick("plan", events))) if events else ("log", log)
    if k == 3:
        sel = [p for p in parts if p[0] == "trace"]
    elif k == 4:
        sel = [p for p in parts if p[0] == "event"]
    elif k == 5:
        sel = [p for p in parts if p[0] in ("attr", "map")]
    else:
        sel = []
    return c.pick("plan", sel) if sel else ("log", log)


def check_clone(ctx, kind, x, y, who):
    ctx.check(y is not x, "same-object", "clone() of a %s returned the object itself" % kind)
    ctx.check(type(x) is type(y), "differs", lambda: "the clone of a %s is a %s" % (type(x).__name__, type(y).__name__))
    a, b = see(kind, x, False), see(kind, y, False)
    ctx.check(a == b, "differs", lambda: "a clone of a %s made by %s differs from the original: %s" % (
        kind, who, first_difference(a, b)))


def events_of(kind, x):
    if kind in ("event", "wrapped"):
        return [x]
    if kind == "trace":
        return list(x)
    if kind == "log":
        return [e for t in x for e in t]
    return []


def run(ctx):
    if ctx.config == "bytecode":
        from .. import sched
        sched.use_instructions()
    if ctx.config == "interleaved":
        interleaved(ctx)
    else:
        threads(ctx)


def interleaved(ctx):
    from opyenxes.factory.XFactory import XFactory
    c = ctx.c
    spec, log = make(ctx, XFactory)
    kind, x = pick_part(c, log)
    ctx.sample = "%s of: %s" % (kind, common.describe(spec))
    copies = [["original", x, None, False]]     # name, object, what it looks like, summarised
    copies[0][2] = see(kind, x)
    proto = protos()
    editors = {}
    shape = []
    steps = 6 + c.draw("plan", 25)
    for step in range(steps):
        k = c.draw("plan", 8)
        if (k == 0 and len(copies) < 5) or (len(copies) == 1 and k < 5):
            src = copies[c.draw("plan", len(copies))]
            y = src[1].clone()
            check_clone(ctx, kind, src[1], y, "main")
            mine = {str(e.get_id()) for e in events_of(kind, y)}
            ctx.check(len(mine) == len(events_of(kind, y)), "shared-id", "two events of a clone have the same id")
            for other in copies:
                both = mine & {str(e.get_id()) for e in events_of(kind, other[1])}
                ctx.check(not both, "shared-id", lambda: "a cloned event has the id of an event of the %s" % other[0])
            name = "clone %d (of %s)" % (len(copies), src[0].split(" (")[0])
            copies.append([name, y, see(kind, y), False])
            ctx.log("clone", name)
            shape.append(("clone", src[0]))
            what = "cloning the %s" % src[0]
            who = None
        elif k == 1 and kind == "log" and len(copies) > 1:
            who = c.draw("plan", len(copies))
            summary(ctx, copies, who)
            what = "a summary of the %s" % copies[who][0]
        else:
            who = c.draw("plan", len(copies))
            e = editors.setdefault(who, Editor(ctx, "c%d" % who))
            targets = walk(kind, copies[who][1])
            if c.draw("plan", 2):
                others = {id(o) for i, cp in enumerate(copies) if i != who for _, o in walk(kind, cp[1])}
                both = [t for t in targets if id(t[1]) in others]
                if both:
                    ctx.probe("shared-object")
                    targets = both
            tk, t = choose(c, targets)
            what = e.edit(tk, t)
            ctx.log("edit", copies[who][0], tk, what)
            ctx.probe("edit:" + what)
            shape.append((who, what))
            what = "an edit (%s) of the %s" % (what, copies[who][0])
            if len(copies) > 1:
                ctx.nontrivial = True
        ctx.ops += 1
        for i, cp in enumerate(copies):
            now = see(kind, cp[1])
            if i == who:
                cp[2] = now
            else:
                ctx.check(now == cp[2], "not-independent", lambda: "%s changed the %s: %s" % (
                    what, cp[0], first_difference(cp[2], now)))
        now = protos()
        ctx.check(now == proto, "prototype", lambda: "%s changed an extension: %s" % (what, first_difference(proto, now)))
    ctx.state(kind, shape)


def summary(ctx, copies, who):
    """A summary of a copy describes that copy, whatever was summarised before it was cloned."""
    from opyenxes.classification.XEventNameClassifier import XEventNameClassifier
    from opyenxes.info.XLogInfoFactory import XLogInfoFactory
    name, log, _, done = copies[who]
    stamps = [e.get_attributes().get("time:timestamp") for t in log for e in t]
    if any(a is not None and model.type_of(a) != "date" for a in stamps):
        return
    info = XLogInfoFactory.create_log_info(log, XEventNameClassifier())
    ctx.log("summary", name)
    ctx.check(info.get_log() is log, "foreign-summary", lambda: "the summary of the %s describes another log" % name)
    if not done:
        n = sum(len(t) for t in log)
        ctx.check((info.get_number_of_traces(), info.get_number_of_event()) == (len(log), n), "foreign-summary",
                  lambda: "the first summary of the %s counts %d traces and %d events instead of %d and %d" % (
                      name, info.get_number_of_traces(), info.get_number_of_event(), len(log), n))
    copies[who][3] = True


def threads(ctx):
    from opyenxes.factory.XFactory import XFactory
    c = ctx.c
    spec, log = make(ctx, XFactory)
    kind, x = pick_part(c, log)
    before = see(kind, x)
    plain = see(kind, x, False)
    proto = protos()
    n = 2 + c.draw("plan", 3)
    made = [[] for _ in range(n)]

    def body(i, plan):
        e = Editor(ctx, "t%d" % i)

        def f():
            own = []
            for again, count in plan:
                src = own[again % len(own)][0] if again and own else x
                look = see(kind, src, False) if src is not x else plain
                y = src.clone()
                got = see(kind, y, False)
                ctx.check(got == look, "differs", lambda: "thread %d: a clone of a %s differs from the original: %s" % (
                    i, kind, first_difference(look, got)))
                own.append([y, see(kind, y)])
                for k in range(count):
                    j = c.draw("plan", len(own))
                    targets = walk(kind, own[j][0])
                    tk, t = choose(c, targets)
                    what = e.edit(tk, t)
                    ctx.log("edit", i, j, what)
                    ctx.ops += 1
                    for m, cp in enumerate(own):
                        now = see(kind, cp[0])
                        if m == j:
                            cp[1] = now
                        else:
                            ctx.check(now == cp[1], "not-independent", lambda: "thread %d: an edit (%s) of one copy changed another "
                                      "of its copies: %s" % (i, what, first_difference(cp[1], now)))
            made[i] = own
        return f
    s = Scheduler(ctx)
    for i in range(n):
        s.spawn("t%d" % i, body(i, [(c.draw("plan", 3), c.draw("plan", 4)) for _ in range(1 + c.draw("plan", 3))]))
    s.run()
    for t in s.tasks:
        if t.exc is not None:
            raise t.exc
    ctx.sample = "%d threads cloning a %s of: %s" % (n, kind, common.describe(spec))
    ctx.nontrivial = s.switches > 0
    now = see(kind, x)
    ctx.check(now == before, "not-independent", lambda: "edits of clones changed the original: %s" % first_difference(before, now))
    for i, own in enumerate(made):
        for y, look in own:
            now = see(kind, y)
            ctx.check(now == look, "not-independent", lambda: "another thread's edits changed a copy of thread %d: %s" % (
                i, first_difference(look, now)))
    ctx.check(protos() == proto, "prototype", lambda: "edits of clones changed an extension: %s" % first_difference(proto, protos()))
