"""C23: logs pass unchanged from program to program through every registered format."""
from .. import common, lives, model
from ..sched import Scheduler
from . import c10, c14, c19

ID = "C23"
CONFIGS = [("chain", 4), ("shared", 3)]
RUNS = {"quick": 1200, "thorough": 40000}
RULE = ("chain: one case = 2-5 programs (fresh processes, each on a host of another time zone and clock, with its own order of the "
        "registries) one after another: each reads a file of an earlier one with the universal parser, which must give the original log "
        "(after MXML its core), and writes it on with a serialiser drawn from the registry under a suffix this serialiser names, in any "
        "case; some die while writing, meet a full disk or an I/O error; shared: 2-4 threads write logs that way to files of their own "
        "while 1-3 others read those files as they come into being: each read gives the complete log or raises, and gives the log "
        "once the writer is done; non-trivial = more than one hop, a fault or a preemption; distinct = different event log")
STATE_MEASURE = "hash of (sequence of serialiser, suffix, stream kind, faults, outcomes)"
REAL = common.REAL
STUB = ["raw file layer (short transfers, EIO, full disk, death while writing)", "host time zone", "thread scheduler", "clock",
        "death and restart of the process", "hash values of registered parsers and serialisers"]
ASSUMPTIONS = common.BASE_ASSUMPTIONS + [
    common.THREAD_ASSUMPTION,
    "a file name is written once; text streams are opened as UTF-8",
    "what MXML cannot hold is not expected back (see C19)"]


def serialisers():
    from opyenxes.data_out.XSerializerRegistry import XSerializerRegistry
    r = XSerializerRegistry()
    return [(s, x) for s in r.get_available() for x in s.get_suffices()], r.current_default()


def place(ctx, stem, legacy):
    """A registered serialiser (legacy: an MXML one) and a path with a suffix it names."""
    c = ctx.c
    all_, default = serialisers()
    fit = sorted(((s, x) for s, x in all_ if x.lower().startswith("mxml") == legacy), key=lambda p: p[1])
    if not legacy and c.draw("plan", 4) == 3:
        fit = [(s, x) for s, x in fit if s is default] or fit
    s, x = c.pick("plan", fit)
    return s, ctx.fs.p(stem + c10.recase(c, "." + x))


def read(ctx, path):
    from opyenxes.data_in.XUniversalParser import XUniversalParser
    with (open(path, "rb") if ctx.c.draw("plan", 2) else open(path, encoding="utf-8")) as f:
        return XUniversalParser().parse(f)


def compare(ctx, want, core, legacy, logs, who):
    ctx.check(isinstance(logs, list) and len(logs) == 1, "log-count", lambda: "%s: %.200r" % (who, logs))
    if legacy:
        return c19.compare_core(ctx, core, logs, who)
    d = model.diff(want, model.observe(logs[0]))
    ctx.check(d is None, "differs", lambda: "%s: %s" % (who, d))
    bad = model.ext_problems(logs[0])
    ctx.check(not bad, "extension", lambda: "%s: attributes of another extension: %r" % (who, bad[:3]))


def make(ctx, g, legacy, scale=0.0):
    """-> (spec, canonical form, MXML core)"""
    if legacy:
        spec, core = c19.log_to_write(ctx.c, g, scale)
    else:
        spec, core = g.log(1 + g.d(3), 1 + g.d(3), scale=scale), None
    return spec, model.canon(spec), core


def run(ctx):
    c = ctx.c
    fs = common.new_fs(ctx)
    fs.short_reads = (0.0, 0.3, 0.9)[c.draw("plan", 3)]
    fs.short_writes = (0.0, 0.3, 0.9)[c.draw("plan", 3)]
    fs.buffer_size = (0, 7, 64, 500)[c.draw("plan", 4)]
    if ctx.config == "shared":
        return shared(ctx)
    legacy = c.draw("plan", 4) == 3         # the last hop is MXML
    spec, want, core = make(ctx, model.Gen(c), legacy, 0.03)
    script, files, rests = [], [], []       # files: (path, is MXML)

    def heal():
        fs.capacity = fs.crash_after_writes = None
        fs.p_eio_write = 0.0

    def hop(k, last):
        c = ctx.c
        c14.set_zone(ctx, c.pick("fault", c14.HOSTS))
        fs.active = True
        if files:
            path, _ = c.pick("plan", files[-2:])
            logs = read(ctx, path)
            ctx.ops += 1
            compare(ctx, want, core, False, logs, "program %d, from %s" % (k, script))
            log = logs[0]
        else:
            log = model.build_log(spec)
        s, path = place(ctx, "f%d" % k, last and legacy)
        how = c.pick("fault", ["none", "none", "die", "full", "eio"]) if not last else "none"
        if how == "die":
            fs.crash_after_writes = c.draw("fault", 4000)
        elif how == "full":
            fs.capacity = c.draw("fault", 4000)
        elif how == "eio":
            fs.p_eio_write = 0.3
        before = fs.fired_write
        entry = [type(s).__name__, path[path.rindex("."):], how]
        try:
            common.write_log(ctx, s, log, path)
        except OSError:
            if fs.fired_write == before:
                raise
            return path, False, entry
        ctx.ops += 1
        return path, True, entry

    def check_file(path, mxml, certain):
        c14.set_zone(ctx, ctx.c.pick("fault", c14.HOSTS))
        fs.active = True
        try:
            logs = read(ctx, path)
        except Exception:       # noqa: any refusal will do for what is left of a failed write
            if certain:
                raise
            ctx.probe("rest refused")
            return
        ctx.ops += 1
        compare(ctx, want, core, mxml, logs, "%s, after %s" % (path[path.rindex("/") + 1:] if certain else "the rest of a failed write", script))
        if not certain:
            ctx.probe("rest complete")

    hops = 2 + c.draw("plan", 4)
    for k in range(hops):
        last = k == hops - 1
        outcome, back = lives.life(ctx, lambda: hop(k, last), "program %d" % k)
        heal()
        if outcome == "crash":
            fs.crash_image(power=False)
            script.append(["died"])
            known = [f for f, _ in files] + rests
            rests.extend(f for f in fs.all_files() if f not in known)
        else:
            path, done, entry = back
            if done:
                files.append((path, last and legacy))
            else:
                rests.append(path)
            script.append(entry)
        ctx.clock.step(ctx.c.pick("fault", [0, 0, 3_600_000_000, -86_400_000_000]))
    for path, mxml in files[-2:]:
        lives.life(ctx, lambda: check_file(path, mxml, True), "reader")
    for path in rests:
        lives.life(ctx, lambda: check_file(path, False, False), "reader of a rest")
    ctx.sample = "chain %s%s of a log with %s" % (script, " to MXML" if legacy else "", common.describe(spec))
    ctx.state(*map(tuple, script))
    ctx.log("chain", script)
    ctx.nontrivial = len(script) > 1 or bool(ctx.faults)


def shared(ctx):
    c, fs = ctx.c, ctx.fs
    fs.active = True
    s = Scheduler(ctx)
    jobs = []
    for i in range(1 + c.draw("plan", 3)):
        legacy = c.draw("plan", 3) == 2
        spec, want, core = make(ctx, model.Gen(c, rich=0.5, tag="W%d" % i), legacy)
        ser, path = place(ctx, "s%d" % i, legacy)
        jobs.append({"i": i, "log": model.build_log(spec), "want": want, "core": core, "legacy": legacy, "ser": ser, "path": path,
                     "opened": False, "done": False})
    outcomes = []

    def writer(j):
        def f():
            j["opened"] = True
            common.write_log(ctx, j["ser"], j["log"], j["path"])
            j["done"] = True
            ctx.ops += 1
        return f

    def reader(order):
        def f():
            for i in order:
                j = jobs[i]
                done = j["done"]
                try:
                    logs = read(ctx, j["path"])
                except Exception:       # noqa: judged by what the writer had said before the read
                    if done:
                        raise
                    outcomes.append("refused")
                    continue
                ctx.ops += 1
                outcomes.append("read" if done else "read early")
                compare(ctx, j["want"], j["core"], j["legacy"], logs, "file %s read while %s" % (
                    j["path"][-10:], "complete" if done else "being written"))
        return f
    for j in jobs:
        s.spawn("w%d" % j["i"], writer(j))
    for k in range(1 + c.draw("plan", 2)):
        s.spawn("r%d" % k, reader([c.draw("plan", len(jobs)) for _ in range(1 + c.draw("plan", 4))]))
    s.run()
    for t in s.tasks:
        if t.exc is not None:
            raise t.exc
    for j in jobs:
        compare(ctx, j["want"], j["core"], j["legacy"], read(ctx, j["path"]), "file %s afterwards" % j["path"][-10:])
    for o in outcomes:
        ctx.probe(o)
    ctx.sample = "shared: %s, reads %s" % ([(type(j["ser"]).__name__, j["path"][-8:]) for j in jobs], outcomes)
    ctx.state("shared", [j["path"][-8:].lower() for j in jobs], outcomes)
    ctx.nontrivial = s.switches > 0
