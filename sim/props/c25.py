"""C25: where the library's messages go makes no difference to what it does."""
import importlib
import sys

from .. import common

ID = "C25"
CONFIGS = [("c01", 2), ("c02", 2), ("c07", 1), ("c08", 4), ("c10", 4), ("c16", 2), ("c19", 3), ("c22", 5), ("c23", 3), ("interrupt", 3), ("messages", 2)]
RUNS = {"quick": 2000, "thorough": 60000}
RULE = ("one case = a case of another property (C01, C02, C07, C08, C10, C16, C19, C22 or C23, with its own histories, threads, faults and "
        "oracle) in a program whose standard output is missing, closed, broken from a drawn message on, failing now and then, full, or "
        "unable to show some characters (ascii, cp1252); interrupt: the user interrupts the program while it prints, once or "
        "several times, and repeats the operation; messages: calls that print (dates that are none, alone and in documents; log messages of "
        "any importance and text; failed downloads; unknown extensions) have the outcome they have with a working output; non-trivial = a message could not be printed; distinct = different event log")
STATE_MEASURE = "hash of (property, kind of standard output, messages lost)"
REAL = common.REAL
STUB = ["standard output", "and those of the property whose case it is"]
ASSUMPTIONS = common.BASE_ASSUMPTIONS + [common.THREAD_ASSUMPTION, "standard output fails with OSError or ValueError, as files do",
                                         "the text of the messages is not laid down"]


class Console:
    """A standard output that does not work."""

    def __init__(self, ctx):
        c = ctx.c
        self.ctx = ctx
        self.kind = c.pick("fault", ["closed", "broken", "flaky", "full", "ascii", "cp1252"])
        self.room = c.draw("fault", 200) if self.kind == "full" else c.draw("fault", 4) if self.kind == "broken" else 0
        self.lost = 0

    def fail(self, exc):
        self.lost += 1
        self.ctx.fired("print:" + self.kind)
        raise exc

    def write(self, s):
        k = self.kind
        if k == "closed":
            self.fail(ValueError("I/O operation on closed file."))
        elif k == "broken":
            self.room -= 1
            if self.room < 0:
                self.fail(BrokenPipeError(32, "Broken pipe"))
        elif k == "flaky":
            if self.ctx.c.draw("fault", 3) == 0:
                self.fail(OSError(5, "Input/output error"))
        elif k == "full":
            self.room -= len(s)
            if self.room < 0:
                self.fail(OSError(28, "No space left on device"))
        else:
            try:
                s.encode(k)
            except UnicodeEncodeError as e:
                self.fail(e)

    def isatty(self):
        if self.kind == "closed":
            self.fail(ValueError("I/O operation on closed file."))
        return self.kind in ("ascii", "cp1252", "flaky")

    def flush(self):
        pass


class Interrupted:
    """A standard output at which the user interrupts the program."""

    def __init__(self, ctx):
        self.ctx, self.at, self.hits = ctx, None, 0

    def write(self, s):
        if self.at is not None:
            self.at -= 1
            if self.at < 0:
                self.at = None
                self.hits += 1
                self.ctx.fired("print:interrupt")
                raise KeyboardInterrupt("simulated")

    flush = Console.flush

    def isatty(self):
        return True


def run(ctx):
    if ctx.config in ("interrupt", "messages"):
        return interrupt(ctx) if ctx.config == "interrupt" else messages(ctx)
    c = ctx.c
    name = ctx.config
    other = importlib.import_module(".%s" % name, __package__)
    if c.draw("fault", 10) == 9:
        plain, sys.stdout = sys.stdout, None
        kind, console = "none", None
    else:
        plain = None
        console = ctx.console = Console(ctx)
        kind = console.kind
    ctx.config = c.weighted("plan", [(w, n) for n, w in other.CONFIGS])
    try:
        other.run(ctx)
    finally:
        ctx.console = None
        if plain is not None:
            sys.stdout = plain
    ctx.config = name
    ctx.state(name, kind, min(console.lost, 5) if console else 0)
    ctx.sample = "standard output %s, %d messages lost: %s" % (kind, console.lost if console else 0, ctx.sample)
    ctx.nontrivial = console is not None and console.lost > 0


class Refuses:
    """A registered parser that accepts any name and never succeeds."""

    def __init__(self, text):
        self.text = text

    def can_parse(self, name):
        return True

    def parse(self, file):
        file.read(10)
        raise ValueError(self.text)


def interrupt(ctx):
    from opyenxes.data_in.XParserRegistry import XParserRegistry
    from opyenxes.data_in.XUniversalParser import XUniversalParser
    from .. import model
    from . import c19
    c = ctx.c
    fs = common.new_fs(ctx)
    g = model.Gen(c, rich=0.3)
    spec = g.log(2, 2)
    mspec, core = c19.log_to_write(c, g)
    want = model.canon(spec)
    head, tail = model.xes_text(spec).split("<log", 1)
    at = tail.index(">") + 1
    strange = "".join('<extension name="S%d" prefix="s%d" uri="http://s/%s%d.xesext"/>' % (i, i, c.pick("plan", ["x", "\u00e9", "\u4e8b"]), i)
                      for i in range(c.draw("plan", 4)))
    for kind in ("xes", "xes.gz"):
        data = (head + "<log" + tail[:at] + strange + tail[at:]).encode("utf-8")
        if kind.endswith("gz"):
            import gzip
            data = gzip.compress(data, mtime=0)
        fs.put("in." + kind, data)
    for i in range(c.draw("plan", 3)):
        XParserRegistry().register(Refuses(c.pick("plan", ["no", "n\u00e3o", "\u4e0d"])))
    fs.active = True
    console = ctx.console = Interrupted(ctx)
    log, mlog = model.build_log(spec), model.build_log(mspec)
    tools = {k: common.tools(k) for k in ("xes", "xes.gz", "mxml", "mxml.gz")}
    parsers = {k: t[1]() for k, t in tools.items()}

    def read(kind, k):
        return common.read_log(parsers[kind], fs.p("in." + kind), "binary")

    def universal(kind, k):
        return common.read_log(XUniversalParser(), fs.p("in." + kind), "binary")

    def write(kind, k):
        path = fs.p("out%d.%s" % (k, kind))
        common.write_log(ctx, tools[kind][0], mlog if kind.startswith("m") else log, path)
        console.at = None
        return common.read_log(parsers[kind], path, "binary")

    script = []
    for k in range(1 + c.draw("plan", 4)):
        name, f = c.pick("plan", [("read", read), ("universal", universal), ("write", write)])
        kind = c.pick("plan", list(tools) if name == "write" else ["xes", "xes.gz"])
        for attempt in range(3):
            console.at = c.draw("fault", 8) if attempt < 2 and c.draw("fault", 3) else None
            armed, hits, error, got = console.at, console.hits, None, None
            try:
                got = f(kind, k)
            except KeyboardInterrupt as e:
                error = e
                if console.hits == hits or "simulated" not in str(e):
                    raise
            console.at = None
            ctx.ops += 1
            script.append((name, kind, armed, error is not None))
            ctx.check(error is not None or console.hits == hits, "swallowed", lambda: "an interrupt at the %s of %s did not reach the caller" % (name, kind))
            if error is not None:
                continue
            if kind.startswith("m"):
                c19.compare_core(ctx, core, got, "%s of %s, attempt %d" % (name, kind, attempt))
            else:
                d = model.diff((want,), tuple(model.observe(x) for x in got))
                ctx.check(d is None, "differs", lambda: "%s of %s, attempt %d: %s" % (name, kind, attempt, d))
    ctx.log("interrupt", script)
    ctx.state("interrupt", script)
    ctx.sample = "interrupt: %s" % (script,)
    ctx.nontrivial = console.hits > 0


NO_DATES = ["yesterday", "2020-13-01T00:00:00Z", "2020-02-30T10:00:00.000+01:00", "\u660e\u65e5", "2020-01-01", "24:00", "-", "2020-01-01T00:00:00+aa:bb"]
TEXTS = ["done", "fertig \u2713", "", "\u4e8b\u4ef6", "a\nb", "x" * 300, "\ud800"]


def messages(ctx):
    import io
    from opyenxes.data_in.XesXmlParser import XesXmlParser
    from opyenxes.log.XLogging import XLogging
    from opyenxes.extension.XExtensionManager import XExtensionManager
    from opyenxes.utils.XsDateTimeConversion import parse_date_time
    from urllib.parse import urlparse
    from .. import model, net
    c = ctx.c
    common.new_fs(ctx)
    ctx.net = net.Net(ctx)              # nobody answers
    ctx.fs.active = True
    usual = sys.stdout
    if c.draw("fault", 8) == 7:
        sys.stdout, bad = None, None
    else:
        bad = Console(ctx)
    say = XLogging()

    def document(dates, strange):
        doc = "<log>%s<trace>%s</trace></log>" % (
            "".join('<extension name="%s" prefix="un%d" uri="http://un/%s"/>' % (x, i, x) for i, x in enumerate(strange)),
            "".join('<event><string key="a" value="%d"/><date key="d" value="%s"/></event>' % (i, x) for i, x in enumerate(dates)))
        return [len(log) and [sorted(e.get_attributes()) for e in log[0]] for log in XesXmlParser().parse(io.StringIO(doc))]

    def outcome(f):
        try:
            return f()
        except Exception as e:      # noqa: compared
            return type(e).__name__, str(e)
    script = []
    plain = sys.stdout
    for _ in range(1 + c.draw("plan", 5)):
        k = c.draw("plan", 4)
        if k == 0:
            x = c.pick("plan", NO_DATES)
            name, f = "date %r" % x, lambda: parse_date_time(x)
        elif k == 1:
            x, y = c.pick("plan", TEXTS), c.pick("plan", [None, "DEBUG", "ERROR", "INFO", "WARNING"])
            name, f = "log %.20r" % x, lambda: say.log(x, y)
        elif k == 2:
            x = [c.pick("plan", NO_DATES + ["2020-01-01T00:00:00Z"]) for _ in range(c.draw("plan", 4))]
            y = [c.pick("plan", ["A", "\u00e9", "\u4e8b"]) for _ in range(c.draw("plan", 3))]
            name, f = "document with %r, %r" % (x, y), lambda: document(x, y)
        else:
            name, f = "download", lambda: XExtensionManager().cache_extension(urlparse("http://nobody.org/x.xesext"))
        sys.stdout, ctx.console = usual, None
        want = outcome(f)
        sys.stdout, ctx.console = plain, bad
        got = outcome(f)
        ctx.console = None
        ctx.ops += 1
        script.append(name)
        ctx.check(got == want, "differs", lambda: "%s: %r instead of %r" % (name, got, want))
    sys.stdout = usual
    ctx.log("messages", script)
    ctx.state("messages", bad and bad.kind, script)
    ctx.sample = "messages with standard output %s: %s" % (bad.kind if bad else "none", script)
    ctx.nontrivial = bad is None or bad.lost > 0
