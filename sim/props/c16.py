"""C16: an operation interrupted by an asynchronous exception can simply be tried again."""
import gzip
import os
from urllib.parse import urlparse

from .. import common, lives, model, net
from ..sched import Scheduler
from . import c05, c07, c08, c12, c15

ID = "C16"
CONFIGS = [("cold", 3), ("warm", 4), ("threads", 3)]
RUNS = {"quick": 2800, "thorough": 80000}
RULE = ("one case = one of 30 operations (parsing and serialising in four formats, the universal parser, cloning, summaries, "
        "first uses of the shared services, lookups, definitions from disk and cache, name maps), in a pristine process or one "
        "that used the library before, on shared objects; interrupted once to three times at a source line drawn uniformly from "
        "those an uninterrupted execution passes, then called again, with 2-5 other operations before and after, in the same or "
        "another thread, or by undisturbed threads at the same time; every result is compared with that of an uninterrupted "
        "execution in a process of its own; non-trivial = the interruption arrived; distinct = different event log")
STATE_MEASURE = "hash of (operation, code location of the interruption, exception)"
REAL = common.REAL + ["urllib.request, http.client"]
STUB = ["asynchronous exceptions and failing allocations (raised before a line of the library)", "raw file layer", "thread "
        "scheduler", "library locks (simulated)", "TCP connections", "clock", "entropy source"]
ASSUMPTIONS = common.BASE_ASSUMPTIONS + [
    common.THREAD_ASSUMPTION,
    "exceptions arrive before a source line of the library, not inside lock operations, the exit of a with block or a finally block",
    "a MemoryError may reach the caller as another exception, or be overcome with the right result; a KeyboardInterrupt reaches the "
    "caller itself"]
KINDS = ["xes", "xes.gz", "mxml", "mxml.gz"]
URL = "http://ext.org/x0.xesext"


def signature(a):
    """A prototype; its value is a default, for ids a random one."""
    e = a.get_extension()
    return (a.get_key(), model.type_of(a), "" if e is None else e.get_name())


class World:
    """Files, tools and objects the operations work on, shared by all of them."""

    def __init__(self, ctx, warm):
        self.ctx = ctx
        c, fs = ctx.c, ctx.fs
        self.warm = warm
        g = model.Gen(c, rich=0.4)
        most = 1 + g.d(3)
        self.specs = {"xes": g.log(most, most), "mxml": g.mxml_log(most, most)}
        for kind in KINDS:
            spec = self.specs[kind[:4].rstrip(".")]
            for i in range(2):
                if i:
                    spec = g.log(2, 2) if kind.startswith("xes") else g.mxml_log(2, 2)
                data = (model.mxml_text(spec) if kind.startswith("mxml") else model.xes_text(spec)).encode("utf-8")
                fs.put("in%d.%s" % (i, kind), gzip.compress(data, mtime=0) if kind.endswith("gz") else data)
        self.definition, data = c07.definition(c, 1)
        for x in self.definition["repeated"]:       # two threads may be loading it again
            del self.definition["aliases"][x]
        self.defpath = fs.put("d.xesext", data)
        self.cached = c08.make(c, 1, URL)[0][1][0]      # (spec, stored form) of X0
        ctx.net.pages[URL] = self.cached[1]
        fs.put(os.path.relpath(self.cache_folder(), fs.root) + "/x0.xesext", self.cached[1])
        fs.stamp_mtimes()
        self.tools = {}
        for kind in KINDS:
            ser, pc = common.tools(kind)
            self.tools[kind] = [ser, None, pc]
        exts = self.specs["xes"]["exts"] if warm else frozenset()
        self.log = model.build_log(dict(self.specs["xes"], exts=exts)) if warm or g.d(2) else None
        self.mlog = model.build_log(dict(self.specs["mxml"])) if warm or g.d(3) == 0 else None
        self.slog = None
        if warm:
            from opyenxes.factory.XFactory import XFactory
            self.slog = c15.gen_log(c, XFactory)
            self.classifiers = [c15.classifier(c) for _ in range(2)]
            for kind in KINDS:
                self.tools[kind][1] = self.tools[kind][2]()
            if g.d(2):
                c12.protos()

    def cache_folder(self):
        return c08.folder()

    # ---- operations: each returns a plain value ----
    def parse(self, kind, i, mode, shared):
        ser, par, pc = self.tools[kind]
        p = par if shared and par is not None else pc()
        return [model.observe(x) for x in common.read_log(p, self.ctx.fs.p("in%d.%s" % (i, kind)), mode)]

    def universal(self, kind, i):
        from opyenxes.data_in.XUniversalParser import XUniversalParser
        return [model.observe(x) for x in common.read_log(XUniversalParser(), self.ctx.fs.p("in%d.%s" % (i, kind)), "binary")]

    def serialise(self, kind, shared, name):
        log = self.mlog if kind.startswith("mxml") else self.log
        path = self.ctx.fs.p("out-%s.%s" % (name, kind))
        common.write_log(self.ctx, self.tools[kind][0] if shared else common.tools(kind)[0], log, path)
        data = self.ctx.fs.get(path)
        return gzip.decompress(data) if kind.endswith("gz") else data

    def show(self, which):
        return model.observe(getattr(self, which))

    def clone(self, what):
        log = next(x for x in (self.slog, self.log, self.mlog) if x is not None)
        x, kind = log, "log"
        if what != "log" and len(log):
            x, kind = log[0], "trace"
            if what != "trace" and len(x):
                x, kind = x[0], "event"
        if what == "attr" and len(x.get_attributes()):
            x, kind = x.get_attributes()[sorted(x.get_attributes())[0]], "attr"
        if what == "map":
            x, kind = x.get_attributes(), "map"
        return c12.see(kind, x.clone(), False)

    def summary(self, k, how):
        info = c15.ask(self.slog, how, self.classifiers[k], [])
        out = [info.get_log() is self.slog, info.get_number_of_traces(), info.get_number_of_event()]
        for x in (info.get_event_classes(), info.get_name_classes(), info.get_resource_classes(), info.get_transition_classes(),
                  info.get_event_classes(self.classifiers[k][0])):
            out.append(x and (x.get_classifier().name(), sorted((y.get_index(), y.get_id(), y.size()) for y in x.get_classes())))
        b = [info.get_log_time_boundaries()] + [info.get_trace_time_boundaries(t) for t in self.slog]
        out.append([(c15.ms(x.get_start_date()), c15.ms(x.get_end_date())) for x in b])
        for level in ("log", "trace", "event", "meta"):
            a = getattr(info, "get_%s_attribute_info" % level)()
            out.append(sorted((key, a.get_frequency(key)) for key in a.get_attribute_keys()))
            out.append(sorted(signature(p) for p in a.get_attributes()))
        return out

    def service(self, kind, how):
        obj = c05.use(kind) if how else c05.class_of(kind)()
        p = c05.problem(kind, obj)
        if p == "does not hold exactly eight extensions":       # other operations register more
            p = None
        return (type(obj).__name__, p, c05.class_of(kind)() is obj)

    def defined(self, prefix):
        e = c05.class_of(prefix)()
        return [sorted(signature(a) for a in getattr(e, "get_%s_attributes" % level)())
                for level in ("log", "trace", "event", "meta", "defined")]

    def lookup(self, prefix):
        m = c05.class_of("manager")()
        name = c05.EXT[prefix][0]
        uri = urlparse("http://www.xes-standard.org/%s.xesext" % prefix)
        e = [m.get_by_prefix(prefix), m.get_by_name(name), m.get_by_uri(uri), m.get_by_index(m.get_index(c05.class_of(prefix)()))]
        return [x is not None and (x.get_name(), x is e[0], c05.problem(prefix, x)) for x in e]

    def resolve(self, key):
        """What the manager makes of a key, as parsers do."""
        m = c05.class_of("manager")()
        e = m.get_by_prefix(key.split(":")[0])
        return e and e.get_name()

    def names(self, key, mapping):
        from opyenxes.info.XGlobalAttributeNameMap import XGlobalAttributeNameMap
        m = XGlobalAttributeNameMap()
        c05.class_of("concept")()
        return (m.map_safely(key, mapping), m.map(key), m.get_standard_mapping().map(key))

    def alias(self, key):
        """Registering the same alias again makes no difference."""
        from opyenxes.info.XGlobalAttributeNameMap import XGlobalAttributeNameMap
        m = XGlobalAttributeNameMap()
        m.register_mapping("SIM", key, "alias of " + key)
        return (m.map_safely(key, "SIM"), m.get_mapping("SIM").map(key), m.get_mapping("SIM") is m.get_mapping("SIM"))

    def load_definition(self):
        from opyenxes.extension.XExtensionParser import XExtensionParser
        return c07.problem(self.definition, XExtensionParser().parse(self.defpath))

    def load_cache(self):
        m = c05.class_of("manager")()
        m.load_extension_cache()
        e = m.get_by_uri(urlparse(URL))
        return (e is not None and c07.problem(self.cached[0], e), m.get_by_name("X0") is e, m.get_by_prefix("x0") is e)

    def cache(self):
        c05.class_of("manager")().cache_extension(urlparse(URL))
        path = self.cache_folder() + "/x0.xesext"
        return self.ctx.fs.get(path) == self.cached[1]

    def register(self):
        """Registering one more extension; doing it again makes no difference."""
        from opyenxes.extension.XExtension import XExtension
        m = c05.class_of("manager")()
        e = self.__dict__.setdefault("own", XExtension("Own", "own", urlparse("http://sim.org/own.xesext")))
        m.register(e)
        at = [i for i in range(20) if m.get_by_index(i) is e]
        return (m.get_by_name("Own") is e, m.get_by_prefix("own") is e, m.get_by_uri(e.get_uri()) is e, len(at),
                at == [m.get_index(e)])

    def create(self):
        from opyenxes.factory.XFactoryRegistry import XFactoryRegistry
        f = XFactoryRegistry().current_default()
        e = f.create_event()
        e.get_attributes()["k"] = f.create_attribute_literal("k", "v", None)
        t = f.create_trace()
        t.append(e)
        log = f.create_log()
        log.append(t)
        return model.observe(log)

    def choose(self):
        """-> (name, function, exceptions that may interrupt it)"""
        d = lambda n: self.ctx.c.draw("plan", n)
        pick = lambda x: self.ctx.c.pick("plan", x)
        what = [(4, "parse"), (2, "universal"), (5, "service"), (3, "lookup"), (2, "defined"), (1, "names"), (1, "alias"),
                (2, "definition"), (1, "load"), (1, "cache"), (1, "create"), (1, "register"), (1, "resolve")]
        if self.log is not None:
            what += [(2, "xes out"), (2, "clone")]
        if self.mlog is not None:
            what += [(1, "mxml out")]
        if self.slog is not None:
            what += [(4, "summary"), (1, "clone")]
        what = self.ctx.c.weighted("plan", what)
        anyexc, only = ("KeyboardInterrupt", "MemoryError"), ("KeyboardInterrupt",)
        if what == "parse":
            a = (pick(KINDS), d(2), pick(["text", "binary"]), d(3) > 0)
            return "parse %s" % (a,), lambda: self.parse(*a), anyexc
        if what == "universal":
            a = (pick(KINDS), d(2))
            return "universal %s" % (a,), lambda: self.universal(*a), anyexc
        if what in ("xes out", "mxml out"):
            a = (what.split()[0] + pick(["", ".gz"]), d(3) > 0, d(2))
            return "serialise %s" % (a,), lambda: self.serialise(*a), anyexc
        if what == "clone":
            a = pick(["log", "trace", "event", "attr", "map"])
            return "clone " + a, lambda: self.clone(a), anyexc
        if what == "summary":
            a = (d(2), pick(["cached", "cached", "direct"]))
            return "summary %s" % (a,), lambda: self.summary(*a), anyexc
        if what == "service":
            a = (pick(c05.KINDS), d(2))
            return "service %s" % (a,), lambda: self.service(*a), anyexc
        if what in ("defined", "lookup"):
            a = pick(sorted(c05.EXT))
            return what + " " + a, lambda: getattr(self, what)(a), anyexc
        if what == "resolve":
            a = pick(["concept:name", "time:timestamp", "nobody:key"])
            return what + " " + a, lambda: self.resolve(a), anyexc
        if what == "names":
            a = (pick(["concept:name", "concept:instance", "nothing"]), pick(["EN", "DE", "nowhere"]))
            return "names %s" % (a,), lambda: self.names(*a), anyexc
        if what == "alias":
            a = pick(["key1", "key2"])
            return "alias " + a, lambda: self.alias(a), anyexc
        return what, {"definition": self.load_definition, "load": self.load_cache, "cache": self.cache, "register": self.register,
                      "create": self.create}[what], only if what in ("load", "cache") else anyexc


class Places:
    """The distinct source lines an execution passes, with the steps at which it passes them."""

    def __init__(self):
        self.at = {}
        self.n = 0

    def line(self, code, where):
        from .. import sched
        self.n += 1
        if sched.may_interrupt(code, where):
            self.at.setdefault((code, where), []).append(self.n)


def reference(ctx, ops):
    """Results of the operations in an uninterrupted process of their own, and the places passed by
    the last one, as [first steps .. last step] lists in order of first passage."""
    from .. import sched

    def body():
        out = []
        for name, fn, _ in ops[:-1]:
            out.append(fn())
        watch = Places()
        prev, sched.ACTIVE = sched.ACTIVE, watch
        try:
            out.append(ops[-1][1]())
        finally:
            sched.ACTIVE = prev
        seen = []
        for steps in sorted(watch.at.values()):
            seen.append(sorted({steps[0], steps[len(steps) // 3], steps[2 * len(steps) // 3], steps[-1]}))
        return out, seen
    outcome, back = lives.life(ctx, body, "undisturbed", fork=True)
    ctx.pid -= 1
    return back


def simulated(e):
    return isinstance(e, (KeyboardInterrupt, MemoryError)) and "simulated" in str(e)


def make(name):
    return {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError}[name]("simulated")


def run(ctx):
    c = ctx.c
    fs = common.new_fs(ctx)
    ctx.net = net.Net(ctx)
    warm = ctx.config != "cold" and (ctx.config == "warm" or bool(c.draw("plan", 2)))
    w = World(ctx, warm)
    if warm:
        for _ in range(c.draw("plan", 3)):
            w.choose()[1]()
    fs.active = True
    main = w.choose()
    around = [w.choose() for _ in range(2 + c.draw("plan", 4))]
    if c.draw("plan", 2):               # the same thing on the same objects
        around[0] = main
    first = around[2:] if c.draw("plan", 3) == 2 else []
    ops = first + around + [main]
    want, places = reference(ctx, ops)
    c = ctx.c                           # replaced when the life came back
    expect = {}
    for (name, _, _), value in zip(ops, want):
        expect.setdefault(name, value)
        ctx.check(expect[name] == value, "differs", lambda: "%s gives different results when nothing is interrupted: %s" % (
            name, model.diff(expect[name], value)))
    ctx.sample = "%s: %s; then %s" % (ctx.config, main[0], [x[0] for x in around])

    def compare(op, got, when):
        ctx.ops += 1
        ctx.log("result", op[0], when)
        ctx.check(got == expect[op[0]], "differs", lambda: "%s %s gives another result than it would have given: %s" % (
            op[0], when, model.diff(expect[op[0]], got)))

    for op in first:
        compare(op, op[1](), "before the interruption")
    times = c.pick("plan", [1, 1, 1, 2, 3])
    plan = []
    for _ in range(times):
        steps = c.pick("fault", places) if places else [1]
        plan.append((c.pick("fault", steps), c.pick("fault", main[2])))
    if ctx.config == "threads":
        threads(ctx, w, main, around, plan, compare)
    else:
        alone(ctx, w, main, around, plan, compare)
    for which in ("log", "mlog"):
        if getattr(w, which) is not None and any(n.startswith(("serialise", "clone")) for n, _, _ in ops):
            d = model.diff(model.canon(dict(w.specs["xes" if which == "log" else "mxml"],
                                            **({} if w.warm or which == "mlog" else {"exts": frozenset()}))), w.show(which))
            ctx.check(d is None, "log-changed", lambda: "the log is not what it was: %s" % d)


def note(ctx, main, exc, where):
    ctx.fired("interrupt:" + type(exc).__name__)
    ctx.state(main[0].split("(")[0], where, type(exc).__name__)
    ctx.probe("interrupted:" + main[0].split()[0])
    ctx.nontrivial = True


def attempt(ctx, main, target, n, name, compare):
    """One interrupted attempt.  target: the stepper or the task."""
    exc = make(name)
    target.injected = None
    target.inject_exc = exc
    target.inject_at = n
    error, got = None, None
    try:
        got = main[1]()
    except BaseException as e:      # noqa: judged below
        error = e
    target.inject_at = None
    where = target.injected
    if where is None:               # another way was taken this time; it was never interrupted
        if error is not None:
            raise error
        compare(main, got, "undisturbed")
        return
    note(ctx, main, exc, where)
    if type(error).__module__.startswith("sim."):
        raise error
    if name == "KeyboardInterrupt":
        ctx.check(error is exc, "not-delivered", lambda: "%s: a KeyboardInterrupt at %s did not reach the caller, who got %r" % (
            main[0], where, error if error is not None else "a result"))
    elif error is None:
        compare(main, got, "in spite of a MemoryError at %s" % where)
    if error is not None:
        error.__traceback__ = None


def alone(ctx, w, main, around, plan, compare):
    c = ctx.c
    for n, name in plan:
        attempt(ctx, main, ctx.stepper, ctx.stepper.n + n, name, compare)
    again = around + [main]
    again = c.shuffle("plan", again) if c.draw("plan", 2) else [main] + around

    def body():
        for op in again:
            compare(op, op[1](), "after the interruption")
    if c.draw("plan", 3):
        body()
    else:                               # another thread of the program
        s = Scheduler(ctx)
        s.spawn("other", body)
        s.run()
        if s.tasks[0].exc is not None:
            raise s.tasks[0].exc
    compare(main, main[1](), "at the end")


def threads(ctx, w, main, around, plan, compare):
    c = ctx.c
    s = Scheduler(ctx)

    def interrupted():
        me = s.tasks[0]
        for n, name in plan:
            attempt(ctx, main, me, me.steps + n, name, compare)
        compare(main, main[1](), "after the interruption")
    s.spawn("interrupted", interrupted)

    def undisturbed(ops):
        def f():
            for op in ops:
                if op[0].startswith("serialise"):
                    continue            # writes the same file
                compare(op, op[1](), "while another thread is interrupted")
        return f
    for i in range(1 + c.draw("plan", 2)):
        s.spawn("other%d" % i, undisturbed(c.shuffle("plan", around)))
    s.run()
    for t in s.tasks:
        if t.exc is not None:
            raise t.exc
    for op in around + [main]:
        compare(op, op[1](), "at the end")
