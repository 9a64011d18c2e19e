"""C10: the universal parser finds the right parser in every registry order."""
import gzip

from .. import common, model
from ..sched import Scheduler
from ..worker import sim_hash

ID = "C10"
CONFIGS = [("order", 4), ("faults", 2), ("none", 1), ("threads", 1)]
RUNS = {"quick": 3000, "thorough": 60000}
RULE = ("one case = a registry holding the four parsers in a drawn order together with 0-3 additional parsers that accept the "
        "file and fail after reading nothing, part or all of it, or after closing it, and 1-4 files with drawn names (any case) "
        "opened as text or binary and given to the universal parser, with short reads and read errors, damaged files and "
        "names nobody accepts; non-trivial = more than one parser accepted the name, or a fault fired, or nobody accepts; "
        "distinct = different event log")
STATE_MEASURE = "hash of (registry order, behaviours of the additional parsers, name, stream kind, outcome)"
REAL = common.REAL
STUB = ["hash values of parser objects (so that the registry's set iterates in a drawn order)", "raw file layer with short "
        "reads and EIO", "additional failing parsers", "thread scheduler", "clock", "entropy source"]
ASSUMPTIONS = common.BASE_ASSUMPTIONS + [common.THREAD_ASSUMPTION, "the file keeps its name and content while it is parsed",
                                         "additional parsers fail with an Exception"]


class Extra:
    """A registered parser that accepts names and always fails."""

    def __init__(self, ctx, suffixes, how, n):
        self.ctx, self.suffixes, self.how, self.n = ctx, suffixes, how, n

    __hash__ = sim_hash

    def __eq__(self, other):
        return self is other

    def can_parse(self, file):
        return any(file.lower().endswith(s) for s in self.suffixes)

    @staticmethod
    def named(name):
        """A class of the given name: nothing may depend on what parsers are called."""
        return type(name, (Extra,), {})

    def parse(self, file):
        self.ctx.fired("parser:fails-" + self.how)
        if self.how == "some":
            file.read(self.n)
        elif self.how == "all":
            while file.read(4096):
                pass
        elif self.how == "close":
            file.close()
        elif self.how == "some-close":
            file.read(self.n)
            file.close()
        elif self.how == "seek":
            file.seek(0, 2)
        raise [ValueError, OSError, KeyError, RuntimeError][self.n % 4](
            ["this parser never succeeds", "cet analyseur \u00e9choue toujours", "\u4e0d\u80fd\u8bfb"][self.n // 4 % 3])


HOW = ["nothing", "some", "all", "close", "some-close", "seek"]


def recase(c, s):
    k = c.draw("plan", 4)
    if k == 0:
        return s
    if k == 1:
        return s.upper()
    return "".join(ch.upper() if c.draw("plan", 2) else ch for ch in s)


def run(ctx):
    from opyenxes.data_in.XParserRegistry import XParserRegistry
    from opyenxes.data_in.XUniversalParser import XUniversalParser
    c = ctx.c
    fs = common.new_fs(ctx)
    cfg = ctx.config
    fs.short_reads = (0.0, 0.4)[c.draw("plan", 2)]
    fs.buffer_size = (0, 16, 100)[c.draw("plan", 3)]
    names = ["Extra", "ATool", "XTool", "XXTool", "ZTool", "_x"]
    extras = [Extra.named(c.pick("plan", names))(ctx, c.pick("plan", [(".xes",), (".xes", ".mxml"), (".gz",), (".xes", ".xes.gz", ".mxml", ".mxml.gz", ".xml"),
                                         (".txt",)]),
                    c.pick("plan", HOW), c.draw("plan", 200)) for _ in range(c.draw("plan", 4))]
    if c.draw("plan", 3) == 2:      # a crowd that accepts nothing here
        extras += [Extra.named(c.pick("plan", names))(ctx, (".never",), "nothing", k) for k in range(1 + c.draw("plan", 8))]
    late = []
    for x in extras:
        if cfg == "threads" and c.draw("plan", 2):
            late.append(x)
        else:
            XParserRegistry().register(x)
    files, encodings = [], {}
    for i in range(1 + c.draw("plan", 3)):
        kind = c.pick("plan", ["xes", "xes.gz", "mxml", "mxml.gz", "xml"])
        fmt = "mxml" if kind == "xml" else kind
        g = model.Gen(c, rich=0.4, tag="F%d" % i)
        most = 1 + g.d(2)
        spec = g.mxml_log(most, most) if fmt.startswith("mxml") else g.log(most, most)
        text = model.mxml_text(spec) if fmt.startswith("mxml") else model.xes_text(spec)
        enc = c.pick("plan", ["utf-8", "utf-8", "utf-8", "iso-8859-1", "utf-16", "us-ascii"])
        text = text.replace('encoding="UTF-8"', 'encoding="%s"' % enc, 1).encode(enc, "xmlcharrefreplace")
        if fmt.startswith("mxml") and g.d(6) == 0:      # a document without a log
            text, enc = b'<?xml version="1.0" encoding="UTF-8"?><WorkflowLog><Source program="sim"/></WorkflowLog>', "utf-8"
        data = gzip.compress(text, mtime=0) if fmt.endswith("gz") else text
        name = c.pick("plan", ["f%d" % i, "dir.xes/f%d" % i, "a.b.mxml%d" % i, "x.xes.gz%d" % i]) + recase(c, "." + kind)
        path = fs.put(name, data)
        encodings[path] = enc
        f = common.open_for_read(ctx, path, "binary")
        try:
            want = [model.observe(x) for x in common.tools(fmt)[1]().parse(f)]
        finally:
            f.close()
        if not fmt.startswith("mxml"):
            d = model.diff((model.canon(spec),), tuple(want))
            ctx.check(d is None, "direct-differs", lambda: "the right parser itself gives another log: %s" % d)
        files.append((name, path, data, want))
    order = [type(p).__name__ if not isinstance(p, Extra) else p.how for p in XParserRegistry().get_available()]
    ctx.sample = "%s; order %s; files %s" % (cfg, order, [f[0] for f in files])
    fs.active = True
    accepted = 0

    def attempt(path, mode):
        f = open(path, "rb") if mode else open(path, encoding=encodings.get(path, "utf-8"))
        try:
            return XUniversalParser().parse(f)
        finally:
            f.close()

    def one(k, name, path, data, want):
        mode = k % 2
        fired = fs.fired_read + fs.fired_open
        error = None
        logs = None
        try:
            logs = attempt(path, mode)
        except Exception as e:       # noqa: judged below
            error = e
        ctx.ops += 1
        ctx.log(name, mode, error is None)
        ctx.state(order, name[-8:], mode, error is None)
        if error is not None:
            if fs.fired_read + fs.fired_open == fired:
                ctx.fail("not-found", "a file named %r with a right parser in the registry (order %s) was not parsed: %r" % (
                    name, order, error))
            ctx.probe("read-error-raised")
            return
        got = [model.observe(x) if x is not None else None for x in logs] if isinstance(logs, list) else logs
        d = model.diff(tuple(want), tuple(got)) if isinstance(got, list) else "returned %r" % (got,)
        ctx.check(d is None, "differs", lambda: "%r read through the universal parser (order %s) differs: %s" % (name, order, d))

    if cfg == "threads":
        s = Scheduler(ctx)
        for i, f in enumerate(files):
            s.spawn("t%d" % i, lambda f=f, k=c.draw("plan", 2): one(k, *f))
        for x in late:
            s.spawn("reg", lambda x=x: XParserRegistry().register(x))
        s.run()
        for t in s.tasks:
            if t.exc is not None:
                raise t.exc
        ctx.nontrivial = s.switches > 0
    for name, path, data, want in files:
        ctx.check(XUniversalParser().can_parse(path), "not-found", lambda: "can_parse denies %r" % name)
        accepted += sum(1 for p in XParserRegistry().get_available() if p.can_parse(path)) > 1
        if cfg == "none":
            bad = fs.put("bad%d%s" % (len(name), name[name.rindex("f"):] if "f" in name else name), data[:c.draw("fault", len(data.rstrip()))])
            ctx.fired("damage:cut")
            other = fs.put(c.pick("plan", ["a.txt", "log.xes.bak", "xes", "a.mxmls", "b.xe", "a_xes", "amxml", "x.mxmlgz", "bxez",
                                            "a.xxml", "a.xes-gz", "a.gz", "f.xes.gzip", "xes.d", "a.mxml.g", "a.mxml_gz"]), data)
            for p in (bad, other):
                usable = any(x.can_parse(p) for x in XParserRegistry().get_available() if not isinstance(x, Extra))
                if p is other:
                    ctx.check(not usable, "not-found", lambda: "a library parser claims %r" % p)
                try:
                    logs = attempt(p, c.draw("plan", 2))
                except Exception as e:       # noqa
                    ctx.probe("refused:" + ("damaged" if p is bad else "name"))
                    continue
                ctx.fail("accepted", "%r (%s) gave %r instead of an exception" % (
                    p, "cut off" if p is bad else "nobody can parse it", logs))
        elif cfg == "faults":
            if c.draw("fault", 3) == 0:
                fs.fail_read_at = c.draw("fault", len(data))
            elif c.draw("fault", 4) == 0:
                fs.fail_open_in = c.draw("fault", 4)
            else:
                fs.p_eio_read = (0.1, 0.3, 0.6)[c.draw("fault", 3)]
        one(c.draw("plan", 2), name, path, data, want)
        fs.fail_read_at, fs.p_eio_read, fs.fail_open_in = None, 0.0, None
        if cfg == "faults":
            one(c.draw("plan", 2), name, path, data, want)
        ctx.check(not fs.leaked(), "left-open", lambda: "files left open: %r" % [x._path for x in fs.leaked()])
    ctx.nontrivial = ctx.nontrivial or accepted > 0 or bool(ctx.faults)
