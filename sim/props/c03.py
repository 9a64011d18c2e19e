"""C03: a damaged or interrupted read never yields a log."""
import errno
import gzip

from .. import common, model

ID = "C03"
CONFIGS = [("cut", 3), ("eio", 2), ("gzip", 3), ("stream", 2)]
RUNS = {"quick": 3000, "thorough": 60000}
RULE = ("one case = one random log written completely, then a history of 2-6 reads with one or two parser objects, some of "
        "them of a copy that is cut off at a drawn byte, whose read fails at a drawn byte, or whose compressed data has "
        "drawn bytes changed, through files, the universal parser or caller-supplied streams; non-trivial = a fault fired; "
        "distinct = different event log")
STATE_MEASURE = "hash of (format, parser, stream kind, damage kind, damage position bucket, outcome)"
REAL = common.REAL
STUB = ["raw file layer with EIO and short reads", "caller-supplied short and failing streams", "clock", "entropy source"]
ASSUMPTIONS = common.BASE_ASSUMPTIONS + [
    "the cut removes at least part of the last closing tag (losing only the final line break is no damage)",
    "damage to compressed data is judged by what gzip itself says: bytes it does not check (file name, time stamp) count as undamaged"]


class FailingStream(common.ShortStream):
    def __init__(self, ctx, data, name, at):
        super().__init__(ctx, data, name, 0.4)
        self.at = at

    def read(self, n=-1):
        if self.pos >= self.at:
            self.ctx.fired("stream:EIO")
            raise OSError(errno.EIO, "simulated stream error")
        left = self.at - self.pos
        if n is None or n < 0 or n > left:
            n = left
        return super().read(n)


def run(ctx):
    from opyenxes.data_in.XUniversalParser import XUniversalParser
    c = ctx.c
    fs = common.new_fs(ctx)
    cfg = ctx.config
    kind = c.pick("plan", ["xes.gz", "mxml.gz"] if cfg == "gzip" else ["xes", "mxml"] if cfg == "stream" else
                  ["xes", "xes.gz", "mxml", "mxml.gz"])
    ser, parser_class = common.tools(kind)
    g = model.Gen(c)
    spec = g.mxml_log(1 + g.d(3), 1 + g.d(3)) if kind.startswith("mxml") else g.log(1 + g.d(3), 1 + g.d(3), scale=0.03)
    log = model.build_log(spec)
    good = fs.p("good." + kind)
    common.write_log(ctx, ser, log, good)
    parsers = [parser_class() for _ in range(1 + g.d(2))]
    full = tuple(model.observe(x) for x in common.read_log(parsers[0], good))
    if not kind.startswith("mxml"):
        d = model.diff((model.canon(spec),), full)
        ctx.check(d is None, "healthy-differs", lambda: "a healthy file reads differently: %s" % d)
    data = fs.get(good)
    bad = fs.p("bad." + kind)
    ctx.sample = "%s, %s: %s" % (kind, cfg, common.describe(spec))
    fs.short_reads = (0.0, 0.3, 0.9)[c.draw("plan", 3)]
    fs.buffer_size = (0, 16, 100)[c.draw("plan", 3)]

    def damage():
        """Write the damaged copy; returns (what, is the content really lost)."""
        if cfg == "gzip" and c.draw("fault", 2):
            out = bytearray(data)
            for _ in range(1 + c.draw("fault", 2)):
                i = c.draw("fault", len(out))
                how = c.draw("fault", 3)
                if how == 0:
                    out[i] ^= 1 << c.draw("fault", 8)
                elif how == 1:
                    out[i] = c.draw("fault", 256)
                else:
                    j = min(len(out), i + 1 + c.draw("fault", 64))
                    out[i:j] = bytes(j - i)
            out = bytes(out)
            fs.put(bad, out)
            try:
                intact = gzip.decompress(out) == gzip.decompress(data)
            except Exception:       # noqa
                intact = False
            if out != data:
                ctx.fired("damage:bytes")
            return "changed bytes", not intact
        cut = c.draw("fault", len(data))
        if cfg == "cut" and not kind.endswith("gz"):
            end = data.rstrip()
            cut = c.draw("fault", len(end))
        fs.put(bad, data[:cut])
        ctx.fired("damage:cut")
        return "cut to %d of %d bytes" % (cut, len(data)), True

    def healthy(parser):
        mode = "text"
        if kind.endswith("gz"):
            mode = c.pick("plan", ["text", "binary"])
        else:
            mode = c.pick("plan", common.XES_MODES)
        f = common.open_for_read(ctx, good, mode)
        try:
            logs = parser.parse(f)
        finally:
            f.close()
        ctx.ops += 1
        got = tuple(model.observe(x) for x in logs)
        d = model.diff(full, got)
        ctx.check(d is None, "healthy-differs", lambda: "a healthy file reads differently after a failure (%s): %s" % (mode, d))

    def attempt(label, parse, opened):
        """Must raise.  opened: whether the caller opened (and so closes) the file."""
        ctx.ops += 1
        try:
            logs = parse()
        except Exception as e:           # noqa: any refusal will do
            ctx.log("refused", label, type(e).__name__)
            ctx.probe("refused:" + type(e).__name__)
            return None
        return logs

    for step in range(2 + c.draw("plan", 4)):
        parser = c.pick("plan", parsers)
        fs.active = bool(c.draw("plan", 4))
        if not c.draw("plan", 4):
            healthy(parser)
        else:
            before = len(fs.leaked())
            if cfg == "stream":
                what = "failing stream"
                text = bool(c.draw("plan", 2))
                src = data.decode("utf-8") if text else data
                at = c.draw("fault", len(src.rstrip()))
                how = c.draw("fault", 2)
                f = FailingStream(ctx, src, bad, at) if how == 0 else common.ShortStream(ctx, src[:at], bad)
                if how:
                    ctx.fired("stream:cut")
                what = "stream that %s after %d of %d" % ("ends" if how else "fails", at, len(src))
                logs = attempt(what, lambda: parser.parse(f), True)
                lost = True
                f.close()
                label = "stream"
            else:
                if cfg == "eio":
                    fs.put(bad, data)
                    what, lost, no_open = "read error", True, None
                    fs.active = True
                    if c.draw("fault", 3):
                        fs.fail_read_at = c.draw("fault", len(data))
                    elif c.draw("fault", 2):
                        fs.p_eio_read = 0.5
                    else:
                        no_open = c.draw("fault", 3)
                else:
                    what, lost = damage()
                fired = fs.fired_read + fs.fired_open
                universal = c.draw("plan", 3) == 0
                p = XUniversalParser() if universal else parser
                mode = c.pick("plan", ["text", "binary"])
                label = ("universal " if universal else "") + mode
                # the caller may close its file or leave that to the parser's own handling
                f = open(bad, "rb") if mode == "binary" else open(bad, encoding="utf-8")
                if cfg == "eio":
                    fs.fail_open_in = no_open
                try:
                    logs = attempt(what, lambda: p.parse(f), True)
                finally:
                    f.close()
                    fs.fail_open_in = None
                if cfg == "eio" and fs.fired_read + fs.fired_open == fired:
                    lost = False
                fs.fail_read_at = None
                fs.p_eio_read = 0.0
                left = fs.leaked()
                ctx.check(len(left) <= before, "left-open", lambda: "after reading (%s) %d file(s) are still open: %r" % (
                    what, len(left), [x._path for x in left]))
            if logs is not None:
                got = tuple(model.observe(x) if x is not None else None for x in logs)
                d = model.diff(full, got)
                if d is not None or (lost and cfg != "eio"):
                    ctx.fail("accepted", "reading a %s file (%s, %s) returned a log instead of raising%s" % (
                        kind, what, label, ": " + d if d else " (the complete one)"))
                ctx.probe("accepted-undamaged")
            elif not lost:
                ctx.fail("healthy-refused", "an undamaged %s file was refused (%s, %s)" % (kind, what, label))
            ctx.state(kind, label, cfg, what[:3], logs is None)
            ctx.probe("format:" + kind)
            ctx.log("step", kind, what, label, logs is None)
    fs.active = bool(c.draw("plan", 2))
    for parser in parsers:
        healthy(parser)
    other = parser_class()
    healthy(other)
    ctx.check(not fs.leaked(), "left-open", lambda: "files still open at the end: %r" % [x._path for x in fs.leaked()])
    ctx.nontrivial = bool(ctx.faults)
