"""C04: concurrent parsing and serialising do not disturb each other."""
import gzip

from .. import common, model
from ..sched import Scheduler

ID = "C04"
CONFIGS = [("shared", 3), ("own", 1), ("bytecode", 1)]
RUNS = {"quick": 1600, "thorough": 40000}
RULE = ("one case = 2-4 threads, each doing 1-3 operations out of: parse one of its own files (own, shared or universal "
        "parser), serialise its own log or one shared log (own or shared serialiser) and read it back afterwards, under a "
        "seeded schedule, in a process that has or has not used the library before; every string in a log names its owner; "
        "non-trivial = at least one preemption; distinct = different event log")
REAL = common.REAL
STUB = ["thread scheduler", "library locks (simulated)", "raw file layer with short transfers", "clock", "entropy source"]
ASSUMPTIONS = common.BASE_ASSUMPTIONS + [common.THREAD_ASSUMPTION,
                                         "nobody modifies a log or registers extensions while it is being serialised; "
                                         "the extension manager, registries and parsers are otherwise untouched"]
KINDS = ["xes", "xes.gz", "mxml", "mxml.gz"]


def run(ctx):
    from opyenxes.data_in.XUniversalParser import XUniversalParser
    c = ctx.c
    fs = common.new_fs(ctx)
    if ctx.config == "bytecode":
        from .. import sched
        sched.use_instructions()
    n = 2 + c.draw("plan", 3)
    warm = bool(c.draw("plan", 2))
    fs.active = True
    fs.short_reads = (0.0, 0.3, 0.9)[c.draw("plan", 3)]
    fs.short_writes = (0.0, 0.3)[c.draw("plan", 2)]
    fs.buffer_size = (0, 64, 300)[c.draw("plan", 3)]
    small = ctx.config == "bytecode"

    def make(kind, tag):
        g = model.Gen(c, tag=tag, rich=0.5)
        most = 2 if small else 1 + g.d(3)
        return g.mxml_log(most, most) if kind.startswith("mxml") else g.log(most, most)

    def put(name, kind, spec):
        text = model.mxml_text(spec) if kind.startswith("mxml") else model.xes_text(spec)
        data = text.encode("utf-8")
        return fs.put(name, gzip.compress(data, mtime=0) if kind.endswith("gz") else data)

    shared_tools = {}
    for kind in KINDS:
        ser, pc = common.tools(kind)
        shared_tools[kind] = (ser, None, pc)
    if warm:
        shared_tools = {k: (s, pc(), pc) for k, (s, _, pc) in shared_tools.items()}
    shared_spec = None
    shared_log = None
    want_shared = None
    if warm or c.draw("plan", 2):
        shared_spec = make("mxml" if c.draw("plan", 2) else "xes", "S")
        if not warm:
            shared_spec["exts"] = frozenset()
        shared_log = model.build_log(shared_spec)
        want_shared = model.observe(shared_log)
    focus = c.pick("plan", [KINDS, KINDS[:1], KINDS[:2], KINDS[2:], ["mxml"]])
    ops_of = c.pick("plan", [("parse", "serialise", "shared"), ("parse",), ("serialise", "shared"), ("parse", "shared")])
    jobs = []
    for i in range(n):
        mine = []
        for j in range(1 + c.draw("plan", 3)):
            op = c.pick("plan", ops_of)
            kind = c.pick("plan", focus)
            if op == "shared" and (shared_log is None or (kind.startswith("mxml") and shared_spec["exts"])):
                op = "parse"
            if op == "shared" and kind.startswith("mxml"):
                kind = kind if all(a[1].startswith("concept:") or a[1][:1] == "d" for a in shared_spec["attrs"]) and \
                    _mxml_safe(shared_spec) else kind.replace("mxml", "xes")
            tool = "shared" if ctx.config == "shared" and c.draw("plan", 3) else "own"
            if op == "parse" and c.draw("plan", 4) == 3:
                tool = "universal"
            tag = "T%d.%d" % (i, j)
            job = {"op": op, "kind": kind, "tool": tool, "tag": tag, "path": fs.p("f%d-%d.%s" % (i, j, kind))}
            if op == "parse":
                job["spec"] = make(kind, tag)
                put("f%d-%d.%s" % (i, j, kind), kind, job["spec"])
                job["mode"] = c.pick("plan", ["text", "binary"])
            elif op == "serialise":
                job["spec"] = make(kind, tag)
                job["log"] = model.build_log(dict(job["spec"], exts=job["spec"]["exts"] if warm else frozenset()))
                if not warm:
                    job["spec"]["exts"] = frozenset()
            mine.append(job)
        jobs.append(mine)
    if not warm and ctx.config == "shared":
        # the shared parsers exist before the threads start, everything else is created on first use
        shared_tools = {k: (s, pc(), pc) for k, (s, _, pc) in shared_tools.items()}
    s = Scheduler(ctx)
    done = []

    def body(mine):
        def f():
            for job in mine:
                ser, par, pc = shared_tools[job["kind"]]
                if job["op"] == "parse":
                    p = XUniversalParser() if job["tool"] == "universal" else par if job["tool"] == "shared" and par else pc()
                    logs = common.read_log(p, job["path"], job["mode"])
                    job["result"] = logs
                else:
                    out = ser if job["tool"] == "shared" else common.tools(job["kind"])[0]
                    common.write_log(ctx, out, shared_log if job["op"] == "shared" else job["log"], job["path"])
                    job["result"] = True
                ctx.log("done", job["tag"])
                done.append(job)
        return f
    for i, mine in enumerate(jobs):
        s.spawn("t%d" % i, body(mine))
    s.run()
    for t in s.tasks:
        if t.exc is not None:
            raise t.exc
    ctx.ops = len(done)
    ctx.check(all("result" in j for mine in jobs for j in mine), "lost", "an operation never finished")
    fs.active = False
    for job in done:
        kind = job["kind"]
        pc = shared_tools[kind][2]
        if job["op"] == "parse":
            got = [model.observe(x) for x in job["result"]]
            if kind.startswith("mxml"):
                want = [model.observe(x) for x in common.read_log(pc(), job["path"], "binary")]
            else:
                want = [model.canon(job["spec"])]
        elif kind.startswith("mxml"):
            got = [model.observe(x) for x in common.read_log(pc(), job["path"], "binary")]
            ref = fs.p("ref-%s.%s" % (job["tag"], kind))
            common.write_log(ctx, common.tools(kind)[0], shared_log if job["op"] == "shared" else job["log"], ref)
            want = [model.observe(x) for x in common.read_log(pc(), ref, "binary")]
        else:
            got = [model.observe(x) for x in common.read_log(pc(), job["path"], "binary")]
            want = [model.canon(shared_spec if job["op"] == "shared" else job["spec"])]
        d = model.diff(tuple(want), tuple(got))
        ctx.check(d is None, "differs", lambda: "%s of %s (%s, %s) differs from what it gives alone: %s" % (
            job["op"], job["tag"], kind, job["tool"], d))
        if job["op"] == "parse" and not kind.startswith("mxml"):
            bad = model.ext_problems(job["result"][0])
            ctx.check(not bad, "extension", lambda: "attributes resolved to the wrong extension: %r" % (bad[:3],))
        ctx.probe("op:%s:%s" % (job["op"], job["tool"]))
        ctx.probe("format:" + kind)
    if shared_log is not None:
        d = model.diff(want_shared, model.observe(shared_log))
        ctx.check(d is None, "log-changed", lambda: "serialising changed the shared log: %s" % d)
    ids = [e.get_id() for job in done if job["op"] == "parse" for x in job["result"] for t in x for e in t]
    ctx.check(len(set(map(str, ids))) == len(ids), "event-ids", "two parsed events share an id")
    ctx.check(not fs.leaked(), "left-open", lambda: "files left open: %r" % [x._path for x in fs.leaked()])
    ctx.sample = "%d threads: %s" % (n, [(j["op"], j["kind"], j["tool"]) for mine in jobs for j in mine])
    ctx.nontrivial = s.switches > 0


def _mxml_safe(spec):
    """Generated by Gen.mxml_log (the MXML serialiser accepts only texts in the standard places)."""
    return all(any(a[1] == "concept:name" and a[0] == "string" for a in x["attrs"]) and
               all(a[0] in ("string", "date") and not a[3] for a in x["attrs"])
               for x in [spec] + spec["traces"] + [e for t in spec["traces"] for e in t["events"]])
