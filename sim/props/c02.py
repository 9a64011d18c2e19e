"""C02: a failed or interrupted write never leaves a wrong log behind unnoticed."""
import errno

from .. import common, model
from ..kernel import SimCrash

ID = "C02"
CONFIGS = [("full", 2), ("eio", 2), ("kill", 2), ("power", 2), ("sink", 1), ("healthy", 1)]
RUNS = {"quick": 3000, "thorough": 60000}
RULE = ("one case = one random log written by one of the four serialisers to a simulated disk that fills up, reports an "
        "I/O error, or whose process is killed or loses power at a drawn byte or disk operation, or to a caller-supplied "
        "stream that raises; the surviving file is then read back by the parser of its format and the write is retried; "
        "non-trivial = a fault fired; distinct = different event log")
STATE_MEASURE = "hash of (serialiser, configuration, faults fired, outcome of the write, surviving bytes bucket, outcome of reading)"
REAL = common.REAL
STUB = ["raw file layer with ENOSPC, EIO, short writes, death of the process and page-wise loss at power failure",
        "caller's stream in the 'sink' configuration", "clock", "entropy source"]
ASSUMPTIONS = common.BASE_ASSUMPTIONS + [
    "files are new or empty when writing starts (the library writes in place); a power loss keeps, per unsynced file, "
    "everything, a prefix, a set of pages with zeros elsewhere, or nothing",
    "the caller closes the stream it opened and looks at exceptions from both calls"]


class Sink:
    """A caller's stream whose write raises after some characters (a pipe whose reader went away)."""

    def __init__(self, name, limit):
        self.name = name
        self.limit = limit
        self.parts = []
        self.closed = False

    def write(self, s):
        room = self.limit - sum(map(len, self.parts))
        if len(s) > room:
            self.parts.append(s[:max(room, 0)])
            raise BrokenPipeError(errno.EPIPE, "simulated: broken pipe")
        self.parts.append(s)
        return len(s)

    def flush(self):
        pass

    def close(self):
        self.closed = True


def run(ctx):
    c = ctx.c
    fs = common.new_fs(ctx)
    kind = c.pick("plan", ["xes", "xes.gz", "mxml", "mxml.gz"])
    ser, parser_class = common.tools(kind)
    g = model.Gen(c)
    if kind.startswith("mxml"):
        spec = g.mxml_log(1 + g.d(3), 1 + g.d(3))
    else:
        spec = g.log(1 + g.d(3), 1 + g.d(3), scale=0.03)
    if g.d(6) == 5:                          # a bigger file, so that many blocks are written
        extra = g.mxml_log(3, 3) if kind.startswith("mxml") else g.log(3, 3)
        spec["traces"] = spec["traces"] + extra["traces"] * (3 + g.d(30))
    log = model.build_log(spec)
    want_mem = model.observe(log)
    ids = [e.get_id() for t in log for e in t]
    ctx.sample = "%s, %s: %s" % (kind, ctx.config, common.describe(spec))

    # what a complete file of this log reads as
    if kind.startswith("mxml"):
        ref = fs.p("reference." + kind)
        common.write_log(ctx, ser, log, ref)
        full = [model.observe(x) for x in common.read_log(parser_class(), ref)]
        full_size = len(fs.get(ref))
    else:
        full = [model.canon(spec)]
        ref = fs.p("reference." + kind)
        common.write_log(ctx, ser, log, ref)
        full_size = len(fs.get(ref))

    path = fs.p("out." + kind)
    fs.journaling = True
    fs.active = True
    fs.short_writes = (0.0, 0.3)[c.draw("plan", 2)]
    fs.buffer_size = (0, 64, 1000)[c.draw("plan", 3)]
    cfg = ctx.config
    at = c.draw("fault", full_size + 40)
    unclosed = False
    if cfg == "full":
        fs.capacity = at
    elif cfg == "eio":
        fs.p_eio_write = (0.02, 0.2, 0.6)[c.draw("fault", 3)]
        fs.fault_errnos = (errno.EIO, errno.EDQUOT, errno.ENOSPC)
        if c.draw("fault", 5) == 4:
            fs.p_eio_write = 0.0
            fs.fail_open_in = c.draw("fault", 2)
    elif cfg in ("kill", "power"):
        how = c.draw("fault", 3)
        if how == 0:
            fs.crash_after_writes = at
        elif how == 1:
            fs.crash_at_op = c.draw("fault", 12)
        else:
            unclosed = True
    outcome = "ok"
    error = None
    try:
        if cfg == "sink":
            ser.serialize(log, Sink(path, at)) if not kind.endswith("gz") else common.write_log(ctx, ser, log, path)
        elif unclosed:
            out = open(path, "w", encoding="utf-8")
            ser.serialize(log, out)
            fs.dead = True
            ctx.fired("crash:before-close")
            outcome = "crash"
        else:
            common.write_log(ctx, ser, log, path)
    except SimCrash:
        outcome = "crash"
    except OSError as e:
        outcome = "error"
        error = e
        if "simulated" not in str(e):
            raise
    ctx.ops += 1
    if outcome == "crash":
        fs.crash_image(power=(cfg == "power"))
    elif cfg == "sink" and outcome == "error":
        ctx.fired("sink:EPIPE")
    fs.active = False
    fs.dead = False
    fs.capacity = fs.fail_open_in = None
    fs.crash_after_writes = fs.crash_at_op = None
    ctx.log("write", kind, cfg, outcome)

    d = model.diff(want_mem, model.observe(log))
    ctx.check(d is None, "log-changed", lambda: "a %s write (%s) changed the log in memory: %s" % (kind, outcome, d))
    ctx.check(ids == [e.get_id() for t in log for e in t], "log-changed", "the write changed event ids")

    # whatever survived reads as the complete log or not at all
    data = fs.get(path)
    read = "none"
    if data is not None and cfg != "sink":
        for mode in c.pick("plan", [("text",), ("binary",), ("binary", "universal"), ("universal",)]):
            try:
                if mode == "universal":
                    from opyenxes.data_in.XUniversalParser import XUniversalParser
                    got = common.read_log(XUniversalParser(), path)
                else:
                    got = common.read_log(parser_class(), path, mode)
                got = [model.observe(x) if x is not None else None for x in got]
                read = "complete"
            except Exception as e:       # noqa: any refusal will do
                read = "raised"
                if outcome == "ok":
                    ctx.fail("lost-silently", "the %s write reported success, but the file cannot be read: %r" % (kind, e))
            if read == "complete":
                d = model.diff(tuple(full), tuple(got))
                ctx.check(d is None, "wrong-log", lambda: "after a %s write (%s, %s) the surviving %d of %d bytes read as a "
                          "different log: %s" % (kind, cfg, outcome, len(data), full_size, d))
                if outcome != "ok":
                    ctx.probe("survived-complete")
    elif outcome == "ok" and cfg != "sink":
        ctx.fail("lost-silently", "the write reported success, but there is no file")
    ctx.check(outcome != "error" or ctx.faults, "raised-without-fault", lambda: "the write failed although nothing was wrong: %r" % error)

    # healthy storage again: the same serialiser, the same log, the same path
    common.write_log(ctx, ser, log, path)
    ctx.ops += 1
    got = [model.observe(x) for x in common.read_log(parser_class(), path)]
    d = model.diff(tuple(full), tuple(got))
    ctx.check(d is None, "retry-differs", lambda: "writing again after a failed %s write gave a different log: %s" % (kind, d))
    error = None
    ctx.state(kind, cfg, sorted(ctx.faults), outcome, min(20, 20 * len(data or b"") // max(full_size, 1)), read)
    ctx.probe("write:%s:%s" % (cfg, outcome))
    ctx.probe("read-back:" + read)
    ctx.probe("serialiser:" + kind)
    ctx.nontrivial = bool(ctx.faults)
