"""Processes inside one simulated run.  A life is one simulated process: it is forked off the
pristine run process, so it starts with a freshly imported library, shares the simulated disk,
network and clock with the other lives, has its own entropy, and may die by SimCrash.  Lives run one
after another; everything the run needs (draws, event log, faults, disk journal) is carried back, so
a run with several processes is still one deterministic execution."""
import os
import pickle
import traceback

from . import kernel, sched, seams
from .kernel import SimCrash, Violation

CARRIED = ("lives", "faults", "probes", "ops", "states", "nontrivial", "sample", "steps")


def life(ctx, fn, name="life", fork=False):
    """Run fn() in a new simulated process.  Returns (outcome, result): outcome is 'exit' or 'crash'.
    With fork=True the life is a fork of the current process: it inherits all program state, also
    that of the random module; only the kernel's entropy differs.  A violation or any other exception of the life is raised here."""
    ctx.lives += 1
    number = ctx.lives
    ctx.log("life", number, name)
    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(rfd)
            data = pickle.dumps(_live(ctx, fn, number, fork))
            view = memoryview(data)
            while view:
                view = view[os.write(wfd, view):]
        except BaseException as e:      # noqa
            import sys
            sys.stderr.write("life failed: %r %s\n" % (e, traceback.format_exc()))
            code = 9
        finally:
            os._exit(code)
    os.close(wfd)
    chunks = []
    while True:
        data = os.read(rfd, 1 << 16)
        if not data:
            break
        chunks.append(data)
    os.close(rfd)
    _, status = os.waitpid(pid, 0)
    if status:
        raise kernel.HarnessError("life %d ended with status %d" % (number, status))
    back = pickle.loads(b"".join(chunks))
    for k in CARRIED:
        setattr(ctx, k, back[k])
    ctx.c = back["choices"]
    for k, v in back["clock"].items():
        setattr(ctx.clock, k, v)
    for s in back["events"]:
        ctx.relog(s)
    if ctx.fs is not None:
        for k, v in back["fs"].items():
            setattr(ctx.fs, k, v)
    if ctx.net is not None:
        ctx.net.requests = back["requests"]
    if back["violation"]:
        v = Violation(*back["violation"])
        ctx.violation = v
        raise v
    if back["error"]:
        raise kernel.HarnessError("in life %d: %s" % (number, back["error"]))
    return back["outcome"], back["result"]


FS_FIELDS = ("journal", "known_mtime", "escapes", "capacity", "crash_after_writes", "crash_at_op", "fired_write", "fired_read",
             "dead", "opens", "write_calls", "read_calls")


def _live(ctx, fn, number, fork):
    from . import worker
    import random
    ctx.events = []
    if fork:
        ctx.pid += 1            # a child lives next to its parent; a restarted process reuses the number
    ctx.urandom = seams.Entropy("%s/life%d" % (ctx.seed, number))
    if not fork:
        random.seed("%s/life%d" % (ctx.seed, number))
    stepper = sched.Stepper(ctx)
    ctx.stepper = stepper
    sched.ACTIVE = stepper
    out = {"violation": None, "error": None, "outcome": "exit", "result": None}
    try:
        out["result"] = fn()
        if ctx.violation is not None:
            raise ctx.violation
    except SimCrash:
        out["outcome"] = "crash"
    except BaseException as e:      # noqa
        if ctx.violation is not None:
            e = ctx.violation
        verdict, cls, msg = worker.judge(e)
        if verdict == "violation":
            out["violation"] = (cls, msg)
        else:
            out["error"] = "%s: %s" % (cls, msg)
    sched.ACTIVE = None
    ctx.steps += stepper.n
    if ctx.fs is not None and out["outcome"] == "crash":
        for f in list(ctx.fs.open_files):
            f._kill()
    for k in CARRIED:
        out[k] = getattr(ctx, k)
    out["choices"] = ctx.c
    out["clock"] = {k: v for k, v in vars(ctx.clock).items() if k != "on_read"}
    out["events"] = ctx.events
    out["fs"] = {k: getattr(ctx.fs, k) for k in FS_FIELDS} if ctx.fs is not None else {}
    out["requests"] = ctx.net.requests if ctx.net is not None else []
    return out
