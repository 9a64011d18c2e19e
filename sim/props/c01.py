"""C01: a log written as XES and read back is the same log, under any partition of the I/O."""
from .. import common, model

ID = "C01"
CONFIGS = [("whole", 1), ("short", 3)]
RUNS = {"quick": 3000, "thorough": 60000}
RULE = ("one case = one random log (all eight attribute types nested up to depth 4, XML-special, control and non-ASCII "
        "text, globals, classifiers, extensions, also of the user's own), serialised plain or gzip onto the simulated disk and read back through "
        "1-3 of seven stream kinds with seeded short transfers; non-trivial = at least one attribute in the log and, in "
        "the 'short' configuration, at least one short transfer fired; distinct = different event log")
STATE_MEASURE = "hash of (attribute types, nesting depth, stream kind, serialisation, short transfers fired)"
REAL = common.REAL
STUB = ["raw file layer (short transfers over a real scratch file)", "clock", "entropy source"]
ASSUMPTIONS = common.BASE_ASSUMPTIONS + [
    "text is restricted to characters XML 1.0 can represent; timestamps are aware and of millisecond precision; "
    "classifier keys are non-empty and contain no quote; list and container members are added as members"]


def run(ctx):
    from opyenxes.data_out.XesXmlSerializer import XesXmlSerializer
    from opyenxes.data_out.XesXmlGZIPSerializer import XesXmlGZIPSerializer
    from opyenxes.data_in.XesXmlParser import XesXmlParser
    from opyenxes.data_in.XesXmlGZIPParser import XesXmlGZIPParser
    from opyenxes.factory.XFactory import XFactory

    fs = common.new_fs(ctx)
    g = model.Gen(ctx.c)
    exts = g.register() if g.p(0.3) else model.STD_PREFIXES
    spec = g.log(most_traces=1 + g.d(4), most_events=1 + g.d(4), exts=exts, scale=0.05)
    with_ext = g.p(0.5)
    want = model.canon(spec)
    ctx.sample = common.describe(spec)
    ext_of = None
    if with_ext:
        from opyenxes.extension.XExtensionManager import XExtensionManager
        m = XExtensionManager()
        ext_of = lambda key: m.get_by_prefix(key[:key.index(":")]) if ":" in key else None
    log = model.build_log(spec, ext_of=ext_of)
    before = model.observe(log)
    if model.diff(want, before):
        from ..kernel import HarnessError
        d = model.diff(want, before)
        ctx.fail("build", "the log built in memory does not hold what was put into it: " + d)
    ids = [e.get_id() for t in log for e in t]

    short = ctx.config == "short"
    if short:
        fs.active = True
        fs.short_reads = (0.0, 0.3, 0.9)[ctx.c.draw("plan", 3)]
        fs.short_writes = (0.0, 0.3, 0.9)[ctx.c.draw("plan", 3)]
        fs.buffer_size = (0, 16, 100, 1000)[ctx.c.draw("plan", 4)]
    ctx.clock.tick = ctx.c.draw("plan", 3) * 1000

    gz = bool(ctx.c.draw("plan", 2))
    path = fs.p("log.xes.gz" if gz else "log.xes")
    ser = XesXmlGZIPSerializer() if gz else XesXmlSerializer()
    common.write_log(ctx, ser, log, path)
    ctx.ops += 1
    d = model.diff(want, model.observe(log))
    ctx.check(d is None, "write-changed-log", lambda: "serialising changed the log: " + d)
    ctx.check(ids == [e.get_id() for t in log for e in t], "write-changed-log", "serialising changed event ids")
    fs.stamp_mtimes()
    if g.p(0.3):
        common.write_log(ctx, ser, log, path)           # writing again over the file
        ctx.ops += 1

    for _ in range(1 + ctx.c.draw("plan", 2)):
        if gz:
            mode = ctx.c.pick("plan", ["text", "binary"])
            parser = XesXmlGZIPParser()
        else:
            mode = ctx.c.pick("plan", common.XES_MODES)
            parser = XesXmlParser()
        f = common.open_for_read(ctx, path, mode)
        logs = parser.parse(f)
        f.close()
        ctx.ops += 1
        ctx.check(isinstance(logs, list) and len(logs) == 1, "log-count", lambda: "parse returned %.200r" % (logs,))
        got = model.observe(logs[0])
        d = model.diff(want, got)
        ctx.check(d is None, "differs", lambda: "read back through %s: %s" % (mode, d))
        bad = model.ext_problems(logs[0])
        ctx.check(not bad, "extension", lambda: "attributes resolved to the wrong extension: %r" % (bad[:3],))
        ctx.state(sorted({a[0] for a in common.all_attrs(spec)}), common.depth(tuple(common.all_attrs(spec))), mode, gz,
                  sorted(ctx.faults))
        for kind in {a[0] for a in common.all_attrs(spec)}:
            ctx.probe("type:" + kind)
        ctx.probe("stream:" + mode)
    ctx.log("done", sorted(ctx.faults.items()))
    ctx.nontrivial = any(True for _ in common.all_attrs(spec)) and (not short or bool(ctx.faults))
