"""C15: a log summary is exact and belongs to its classifier, also under concurrent use."""
import datetime as dt

from .. import common, model
from ..sched import Scheduler
from . import c12

ID = "C15"
CONFIGS = [("threads", 4), ("history", 3), ("bytecode", 1), ("cache", 2)]
RUNS = {"quick": 1600, "thorough": 60000}
RULE = ("one case = 1-2 random logs (0-4 traces of 0-4 events over a few names, resources, transitions and extra attributes of all "
        "types, timestamps with any fixed offset) and 2-9 summary requests with drawn classifiers (standard, name, resource, "
        "transition, one to four keys, conjunctions, several at once) through the cache and directly, by 1-4 preempted threads, in "
        "the history configuration with edits of the log in between; every number of every summary is compared with a recount; "
        "non-trivial = the log has events and two requests used different classifiers; distinct = different event log")
REAL = common.REAL
STUB = ["thread scheduler", "library locks (simulated)", "entropy source"]
ASSUMPTIONS = common.BASE_ASSUMPTIONS + [common.THREAD_ASSUMPTION,
                                         "a summary describes the log as it was when the summary was first made (documented cache)",
                                         "timestamps have fixed UTC offsets or no zone, which means UTC; attribute texts do not contain '&&'"]
KEYS = ["concept:name", "org:resource", "lifecycle:transition", "k1", "k2", "n"]


def gen_log(c, f, scale=0.0):
    """A log with few distinct values, so that classes have several members."""
    from opyenxes.extension.XExtensionManager import XExtensionManager
    m = XExtensionManager()
    g = model.Gen(c, rich=0.4)

    def ext_of(key):
        return m.get_by_prefix(key[:key.index(":")]) if ":" in key else None

    def strange(el, most):
        for a in g.attrs(0, most):
            if a[1] not in KEYS and a[1] != "time:timestamp" and "&&" not in repr(a):
                el.get_attributes()[a[1]] = model.build_attr(f, a, ext_of)
        if g.d(30) == 29:               # an attribute with many attributes of its own
            kids = tuple((c.pick("plan", ["int", "string"]), "w%d" % i, i, ()) for i in range(6 + g.d(40)))
            kids = tuple((t, k, v if t == "int" else str(v), ()) for t, k, v, _ in kids)
            wide = (c.pick("plan", ["string", "boolean"]), "wide", None, kids)
            wide = wide[:2] + (True if wide[0] == "boolean" else "x",) + wide[3:]
            for _ in range(g.d(3)):
                wide = ("string", "around", "y", (wide,))
            el.get_attributes()[wide[1]] = model.build_attr(f, wide, ext_of)
    log = f.create_log()
    zoneless = g.d(4) == 3              # some dates have no zone and are of UTC
    strange(log, 3)
    many = g.d(6) if scale and g.p(scale) else 0      # one dimension much larger: traces, events, classes
    values = ["a", "b", "c d", "é", ""] + ([["a ", " a", "\ta", "A"], [" ", "a&", "a\n"], ["é", "e\u0301", "É"], ["1", "1.0", "01"]][g.d(4)] if g.d(2) else []) + ["v%d" % i for i in range(200 if many > 2 else 0)]
    for i in range(40 + g.d(150) if many == 1 else g.d(5)):
        t = f.create_trace()
        strange(t, 2)
        for _ in range(40 + g.d(200) if many > 1 and i == 0 else g.d(5)):
            e = f.create_event()
            for key in KEYS:
                if g.d(3):
                    v = c.pick("plan", values)
                    if key == "n":
                        a = f.create_attribute_discrete(key, g.d(3), None)
                    elif key == "k2" and g.d(2):
                        a = f.create_attribute_boolean(key, bool(g.d(2)), None)
                    else:
                        a = f.create_attribute_literal(key, v, ext_of(key))
                    e.get_attributes()[key] = a
            if g.d(3):
                ms = 1_400_000_000_000 + g.d(5000) if g.d(4) else g.millis()
                off = g.offset()
                when = model.to_datetime((ms, off))
                if zoneless and g.d(2):
                    when = model.to_datetime((ms, 0)).replace(tzinfo=None)
                e.get_attributes()["time:timestamp"] = f.create_attribute_timestamp(
                    "time:timestamp", when, ext_of("time:timestamp"))
            strange(e, 2)
            t.append(e)
        log.append(t)
    if log and g.d(8) == 7:
        log.append(log[0])          # the same trace object twice
    return log


def classifier(c):
    """(classifier, its name, its keys)"""
    from opyenxes.classification.XEventAttributeClassifier import XEventAttributeClassifier as C
    from opyenxes.classification.XEventAndClassifier import XEventAndClassifier
    from opyenxes.classification.XEventLifeTransClassifier import XEventLifeTransClassifier
    from opyenxes.classification.XEventNameClassifier import XEventNameClassifier
    from opyenxes.classification.XEventResourceClassifier import XEventResourceClassifier
    k = c.draw("plan", 8)
    if k == 0:
        return None, None, ("concept:name", "lifecycle:transition")
    if k == 1:
        return XEventNameClassifier(), None, ("concept:name",)
    if k == 2:
        return XEventResourceClassifier(), None, ("org:resource",)
    if k == 3:
        return XEventLifeTransClassifier(), None, ("lifecycle:transition",)
    if k == 4:
        parts = [classifier(c) for _ in range(1 + c.draw("plan", 2))]
        parts = [p for p in parts if p[0] is not None] or [(XEventNameClassifier(), None, ("concept:name",))]
        return XEventAndClassifier([p[0] for p in parts]), None, tuple(sorted({x for p in parts for x in p[2]}))
    keys = []
    for _ in range(1 + c.draw("plan", 4)):
        key = c.pick("plan", KEYS)
        if key not in keys:
            keys.append(key)
    return C(c.pick("plan", ["mine", "other", "Event Name"]), keys), None, tuple(keys)


# ---------------------------------------------------------------- recount
def text_of(e, key):
    a = e.get_attributes().get(key)
    if a is None:
        return None
    typ = model.type_of(a)
    return a.get_value() if typ == "string" else str(a)


def group(events, keys):
    """Identity of a class -> its size.  A missing attribute and an empty one look the same."""
    out = {}
    for e in events:
        ident = "&&".join(text_of(e, k) or "" for k in keys)
        out[ident] = out.get(ident, 0) + 1
    return out


def stamps(events):
    out = []
    for e in events:
        a = e.get_attributes().get("time:timestamp")
        if a is not None:
            out.append(model.instant_ms(a.get_value(), True))
    return (min(out), max(out)) if out else (None, None)


def count_attrs(elements):
    """key -> [count, set of types, set of extension names]"""
    out = {}
    for el in elements:
        for a in el.get_attributes().values():
            x = out.setdefault(a.get_key(), [0, set(), set()])
            x[0] += 1
            x[1].add(model.type_of(a))
            x[2].add(a.get_extension())
    return out


def nested(elements, out=None):
    """Every attribute that stands below an attribute is a meta attribute of that one."""
    out = [] if out is None else out
    for el in elements:
        for a in el.get_attributes().values():
            out.append(a)
            nested([a], out)
    return out


class Recount:
    """Everything a summary of the log should say now."""

    def __init__(self, log, keysets):
        events = [e for t in log for e in t]
        self.events = events
        self.n = (len(log), len(events))
        self.classes = {keys: group(events, keys) for keys in keysets}
        self.bounds = stamps(events)
        self.trace_bounds = [(t, stamps(t)) for t in log]
        self.levels = {"log": count_attrs([log]), "trace": count_attrs(log), "event": count_attrs(events),
                       "meta": count_attrs(nested([log] + list(log) + events))}
        self.idents = {keys: [(e, "&&".join(text_of(e, k) or "" for k in keys)) for e in events] for keys in keysets}


def ms(d):
    return None if d is None else model.instant_ms(d, True)


def check_info(ctx, info, log, want, asked, extra, who, current=True):
    """info: the summary `who` got; want: the recount; asked: (classifier, _, keys) it asked for."""
    ctx.check(info is not None and info.get_log() is log, "wrong-log", lambda: "%s got a summary of another log" % who)
    got = (info.get_number_of_traces(), info.get_number_of_event())
    ctx.check(got == want.n, "counts", lambda: "%s: %d traces and %d events instead of %d and %d" % ((who,) + got + want.n))
    default = info.get_event_classes()
    covered = [("its own classifier", default, asked[2]), ("names", info.get_name_classes(), ("concept:name",)),
               ("resources", info.get_resource_classes(), ("org:resource",)),
               ("transitions", info.get_transition_classes(), ("lifecycle:transition",))]
    if asked[0] is not None:
        covered.append(("the classifier asked for", info.get_event_classes(asked[0]), asked[2]))
    for x in extra:
        if x[0] is not None:
            covered.append(("an extra classifier", info.get_event_classes(x[0]), x[2]))
    for what, classes, keys in covered:
        ctx.check(classes is not None, "not-covered", lambda: "%s: %s (%s) is not covered" % (who, what, keys))
        check_classes(ctx, classes, keys, want, "%s, %s" % (who, what), current)
    if asked[0] is not None:
        ctx.check(default.get_classifier() == asked[0], "wrong-classifier", lambda: "%s asked for %r %r and got the classes of %r %r" % (
            who, asked[0].name(), asked[2], default.get_classifier().name(), default.get_classifier().get_defining_attribute_keys()))
    mine = {(x.name(), tuple(x.get_defining_attribute_keys())) for x in info.get_event_classifiers()}
    need = {"concept:name", "org:resource", "lifecycle:transition"}
    ctx.check(need <= {k[0] for _, k in mine if len(k) == 1}, "not-covered", lambda: "%s: classifiers %r" % (who, mine))
    b = info.get_log_time_boundaries()
    got = (ms(b.get_start_date()), ms(b.get_end_date()))
    ctx.check(got == want.bounds, "bounds", lambda: "%s: the log lasts from %s to %s, not %s to %s" % ((who,) + got + want.bounds))
    for i, (t, w) in enumerate(want.trace_bounds):
        b = info.get_trace_time_boundaries(t)
        ctx.check(b is not None, "bounds", lambda: "%s: no boundaries for trace %d" % (who, i))
        got = (ms(b.get_start_date()), ms(b.get_end_date()))
        ctx.check(got == w, "bounds", lambda: "%s: trace %d lasts from %s to %s, not %s to %s" % ((who, i) + got + w))
        if w[0] is not None:
            for at, inside in ((w[0] - 1, False), (w[0], True), ((w[0] + w[1]) // 2, True), (w[1], True), (w[1] + 1, False)):
                if abs(at) < 62_000_000_000_000:
                    when = model.to_datetime((at, 0))
                    when = when.replace(tzinfo=None) if at % 3 == 0 else when
                    ctx.check(b.is_within(when) == inside, "bounds", lambda: "%s: trace %d from %s to %s, is_within(%s) "
                              "is wrong" % (who, i, w[0], w[1], at))
    for level, counts in want.levels.items():
        check_attrs(ctx, getattr(info, "get_%s_attribute_info" % level)(), counts, "%s, %s level" % (who, level))


def check_classes(ctx, classes, keys, want, who, current=True):
    groups = want.classes[keys]
    got = {}
    for x in classes.get_classes():
        got[x.get_id()] = got.get(x.get_id(), 0) + x.size()
    ctx.check(got == groups, "classes", lambda: "%s %r: classes %r, recounted %r" % (who, keys, got, groups))
    ctx.check(len(classes) == len(groups), "classes", lambda: "%s: %d classes, not %d" % (who, len(classes), len(groups)))
    index = sorted((x.get_index(), x.get_id()) for x in classes.get_classes())
    ctx.check([i for i, _ in index] == list(range(len(groups))) and [n for _, n in index] == sorted(groups), "class-index",
              lambda: "%s: indices %r" % (who, index))
    for i, ident in index:
        ctx.check(classes.get_by_index(i) is classes.get_by_identity(ident), "class-index", lambda: "%s: class %d is not %r" % (
            who, i, ident))
    for e, ident in want.idents[keys] if current else ():
        x = classes.get_class_of(e)
        ctx.check(x is not None and x.get_id() == ident, "class-of", lambda: "%s: an event of class %r is said to be in %r" % (
            who, ident, x and x.get_id()))
    rows = want.idents[keys] if current else []
    for (e, i), (f, j) in zip(rows, rows[1:] + rows[:1]):
        same = classes.get_classifier().same_event_class(e, f)
        ctx.check(same == (i == j), "same-class", lambda: "%s: events of the classes %r and %r are said to be of %s class" % (
            who, i, j, "one" if same else "no common"))


TYPES = {"string": "XAttributeLiteral", "date": "XAttributeTimestamp", "int": "XAttributeDiscrete", "float": "XAttributeContinuous",
         "boolean": "XAttributeBoolean", "id": "XAttributeID", "list": "XAttributeList", "container": "XAttributeContainer"}


def check_attrs(ctx, info, counts, who):
    import importlib
    keys = sorted(info.get_attribute_keys())
    ctx.check(keys == sorted(counts), "attribute-keys", lambda: "%s: keys %r, recounted %r" % (who, keys, sorted(counts)))
    total = sum(x[0] for x in counts.values())
    for k, x in counts.items():
        f = info.get_frequency(k)
        ctx.check(f == x[0], "frequency", lambda: "%s: %r occurs %r times, recounted %d" % (who, k, f, x[0]))
        r = info.get_relative_frequency(k)
        ctx.check(abs(r - x[0] / total) < 1e-9, "frequency", lambda: "%s: %r has relative frequency %r of %d/%d" % (who, k, r, x[0], total))
    protos = {}
    for p in info.get_attributes():
        ctx.check(p.get_key() in counts and p.get_key() not in protos, "prototypes", lambda: "%s: prototypes %r" % (
            who, [q.get_key() for q in info.get_attributes()]))
        protos[p.get_key()] = p
        ctx.check(info.get_frequency(p) == counts[p.get_key()][0], "frequency", "%s: frequency by prototype" % who)
        ctx.check(model.type_of(p) in counts[p.get_key()][1] and p.get_extension() in counts[p.get_key()][2], "prototypes",
                  lambda: "%s: %r has a prototype of type %s of %s" % (who, p.get_key(), model.type_of(p), p.get_extension()))
    by_type, by_ext = {}, {}
    for k, p in protos.items():
        by_type.setdefault(model.type_of(p), set()).add(k)
        by_ext.setdefault(p.get_extension(), set()).add(k)
    for typ, name in TYPES.items():
        cls = getattr(importlib.import_module("opyenxes.model." + name), name)
        got = set(info.get_keys_for_type(cls))
        ctx.check(got == by_type.get(typ, set()), "by-type", lambda: "%s: keys of type %s are %r, not %r" % (
            who, typ, sorted(got), sorted(by_type.get(typ, set()))))
    for ext, names in by_ext.items():
        got = set(info.get_keys_for_extension(ext)) if ext is not None else set(info.get_keys_without_extension())
        ctx.check(got == names, "by-extension", lambda: "%s: keys of %s are %r, not %r" % (who, ext, sorted(got), sorted(names)))


NAMES = [("concept:name",), ("org:resource",), ("lifecycle:transition",)]


def run(ctx):
    if ctx.config == "bytecode":
        from .. import sched
        sched.use_instructions()
    if ctx.config == "history":
        history(ctx)
    elif ctx.config == "cache":
        cache(ctx)
    else:
        threads(ctx)


def ask(log, how, asked, extra):
    from opyenxes.info.XLogInfo import XLogInfo
    from opyenxes.info.XLogInfoFactory import XLogInfoFactory
    if how == "cached":
        return XLogInfoFactory.create_log_info(log, asked[0]) if asked[0] is not None else XLogInfoFactory.create_log_info(log)
    return XLogInfo.create(log, asked[0], [x[0] for x in extra if x[0] is not None])


def classes_only(ctx, log, asked, want, who):
    from opyenxes.classification.XEventClasses import XEventClasses
    if asked[0] is not None:
        check_classes(ctx, XEventClasses.derive_event_classes(asked[0], log), asked[2], want, who)


def threads(ctx):
    from opyenxes.factory.XFactory import XFactory
    c = ctx.c
    logs = [gen_log(c, XFactory) for _ in range(1 + c.draw("plan", 2))]
    pool = [classifier(c) for _ in range(2 + c.draw("plan", 2))]
    keysets = NAMES + [x[2] for x in pool]
    want = [Recount(log, keysets) for log in logs]
    before = [c12.see("log", log) for log in logs]
    n = 2 + c.draw("plan", 3)
    plans = [[(c.draw("plan", len(logs)), c.weighted("plan", [(6, "cached"), (2, "direct"), (1, "classes")]),
               c.draw("plan", len(pool)), c.draw("plan", 3)) for _ in range(1 + c.draw("plan", 3))] for _ in range(n)]
    if c.draw("plan", 2) == 0:
        ask(logs[0], "cached", pool[c.draw("plan", len(pool))], [])
    results = []

    def body(i, plan):
        def f():
            for j, how, k, more in plan:
                asked = pool[k]
                extra = pool[:more] if how == "direct" else []
                who = "t%d" % i
                if how == "classes":
                    classes_only(ctx, logs[j], asked, want[j], who)
                else:
                    info = ask(logs[j], how, asked, extra)
                    results.append((info, j, asked, extra, who))
                    check_info(ctx, info, logs[j], want[j], asked, extra, "%s (%s, %r)" % (who, how, asked[2]))
                ctx.log(who, j, how, k)
                ctx.ops += 1
        return f
    s = Scheduler(ctx)
    for i in range(n):
        s.spawn("t%d" % i, body(i, plans[i]))
    s.run()
    for t in s.tasks:
        if t.exc is not None:
            raise t.exc
    ctx.sample = "%d threads, %s events, classifiers %r: %r" % (n, [w.n for w in want], [x[2] for x in pool], plans)
    for info, j, asked, extra, who in results:      # nobody's summary was changed by another's
        check_info(ctx, info, logs[j], want[j], asked, extra, who + " afterwards")
    for j, log in enumerate(logs):
        now = c12.see("log", log)
        ctx.check(now == before[j], "log-changed", lambda: "summaries changed the log: %s" % c12.first_difference(before[j], now))
        for x in pool:                              # and the cache holds the right one
            info = log.get_info(x[0])
            if info is not None:
                check_info(ctx, info, log, want[j], x, [], "held at the end")
        for x in pool:
            check_info(ctx, ask(log, "cached", x, []), log, want[j], x, [], "at the end")
    ctx.nontrivial = s.switches > 0 and len({x[2] for x in pool}) > 1 and any(w.n[1] for w in want)


def cache(ctx):
    """Rounds of requests for one tiny log: what counts is which summary the cache hands out."""
    from opyenxes.factory.XFactory import XFactory
    c = ctx.c
    log = XFactory.create_log()
    log.append(XFactory.create_trace())
    for i in range(1 + c.draw("plan", 2)):
        e = XFactory.create_event()
        for k in KEYS[:3 + c.draw("plan", 3)]:
            e.get_attributes()[k] = XFactory.create_attribute_literal(k, "%s of %d" % (k, i), None)
        log[0].append(e)
    pool = [classifier(c) for _ in range(3)]
    want = Recount(log, NAMES + [x[2] for x in pool])
    answers = []

    def body(who, plan):
        def f():
            for k in plan:
                answers.append((who, pool[k], ask(log, "cached", pool[k], [])))
        return f

    def right(who, asked, info):
        ctx.check(info is not None and info.get_log() is log, "wrong-log", lambda: "%s got a summary of another log" % who)
        classes = info.get_event_classes()
        ctx.check(asked[0] is None or classes.get_classifier() == asked[0], "wrong-classifier",
                  lambda: "%s asked for %r and got the classes of %r" % (who, asked[2], classes.get_classifier().get_defining_attribute_keys()))
        check_classes(ctx, classes, asked[2], want, who)
    switches = 0
    for r in range(4 + c.draw("plan", 4)):
        s = Scheduler(ctx)
        for i in range(2 + c.draw("plan", 2)):
            s.spawn("t%d" % i, body("t%d in round %d" % (i, r), [c.draw("plan", 3) for _ in range(1 + c.draw("plan", 3))]))
        s.run()
        for t in s.tasks:
            if t.exc is not None:
                raise t.exc
        switches += s.switches
        for x in pool:
            info = log.get_info(x[0])
            if info is not None:
                right("held after round %d" % r, x, info)
        for a in answers:
            ctx.ops += 1
            right(*a)
            ctx.log(a[0], a[1][2])
        del answers[:]
    ctx.nontrivial = switches > 0 and len({x[2] for x in pool}) > 1
    ctx.sample = "%d rounds of requests for the classifiers %r of one log" % (r + 1, [x[2] for x in pool])


def history(ctx):
    from opyenxes.factory.XFactory import XFactory
    c = ctx.c
    log = gen_log(c, XFactory, 0.03)
    pool = [classifier(c) for _ in range(2 + c.draw("plan", 3))]
    keysets = NAMES + [x[2] for x in pool]
    seen = []                   # (info, recount at the time it was made, asked, extra)
    want = Recount(log, keysets)
    trail = []
    editor = c12.Editor(ctx, "h")
    for step in range(2 + c.draw("plan", 8)):
        ctx.ops += 1
        k = c.draw("plan", 5)
        asked = pool[c.draw("plan", len(pool))]
        before = c12.see("log", log)
        if k == 4 and log:
            what = edit(c, editor, log)
            want = Recount(log, keysets)
            trail.append(what)
            ctx.log("edit", what)
            continue
        how = "direct" if k == 3 else "cached"
        extra = [pool[c.draw("plan", len(pool))] for _ in range(c.draw("plan", 3))] if how == "direct" else []
        trail.append((how, asked[2]))
        if c.draw("plan", 6) == 5:
            classes_only(ctx, log, asked, want, "classes")
        info = ask(log, how, asked, extra)
        old = next((o for o in seen if o[0] is info), None)
        if old is None:
            seen.append((info, want, asked, extra))
        else:
            ctx.probe("from the cache")
            ctx.check(how == "cached", "cached", "a summary made directly is not new")
        check_info(ctx, info, log, old[1] if old else want, asked, old[3] if old else extra, "request %d (%s)" % (step, how),
                   old is None or old[1] is want)
        now = c12.see("log", log)
        ctx.check(now == before, "log-changed", lambda: "a summary changed the log: %s" % c12.first_difference(before, now))
        ctx.log(how, asked[2])
        if c.draw("plan", 4) == 3:                  # prototypes belong to the summary
            for level in ("log", "trace", "event", "meta"):
                for p in getattr(info, "get_%s_attribute_info" % level)().get_attributes():
                    p.get_attributes()["note"] = XFactory.create_attribute_literal("note", "x", None)
            now = c12.see("log", log)
            ctx.check(now == before, "log-changed", lambda: "editing a prototype changed the log: %s" % c12.first_difference(before, now))
    for info, w, asked, extra in seen:
        if not any(isinstance(x, str) for x in trail):
            check_info(ctx, info, log, w, asked, extra, "at the end")
    ctx.state(trail)
    ctx.sample = "history of %d traces, %d events: %r" % (want.n + (trail,))
    ctx.nontrivial = len({t for t in trail if not isinstance(t, str)}) > 1 and want.n[1] > 0


def edit(c, editor, log):
    """An edit that keeps the log summarisable."""
    k = c.draw("plan", 4)
    if k == 0:
        log.append(log[c.draw("plan", len(log))].clone())
        return "trace added"
    if k == 1 and len(log) > 1:
        log.pop()
        return "trace removed"
    t = log[c.draw("plan", len(log))]
    if len(t) and k == 2:
        t.append(t[0].clone())
        return "event added"
    if len(t):
        from opyenxes.extension.std.XConceptExtension import XConceptExtension
        XConceptExtension().assign_name(t[c.draw("plan", len(t))], "renamed")
        return "event renamed"
    return "nothing"
