"""The zygote: installs the seams, imports the library once, and forks one child per run, so that
every run starts from the same pristine process."""
import importlib
import json
import os
import pkgutil
import select
import signal
import sys
import traceback

from . import kernel, seams, sched, disk
from .kernel import Ctx, HarnessError, StepLimit, Violation

RUN_TIMEOUT = 100.0
ENV_ERRNOS = (28, 12, 23, 24)     # ENOSPC ENOMEM ENFILE EMFILE


def import_library():
    src = os.path.dirname(os.path.dirname(kernel.SRC))
    if src not in sys.path:
        sys.path.insert(0, src)
    import opyenxes
    here = os.path.realpath(opyenxes.__file__)
    if not here.startswith(kernel.SRC):
        raise HarnessError("wrong library imported: " + here)
    for m in pkgutil.walk_packages(opyenxes.__path__, "opyenxes."):
        if m.name == "opyenxes.cli":
            continue
        importlib.import_module(m.name)
    # modules the standard library imports lazily on the code paths under test
    for name in ("xml.sax.expatreader", "xml.dom.expatbuilder", "xml.dom.minidom", "xml.dom.xmlbuilder",
                 "encodings.utf_8", "encodings.ascii", "encodings.latin_1", "encodings.idna", "gzip", "zlib",
                 "http.client", "urllib.request", "urllib.response", "_strptime", "zoneinfo", "stringprep",
                 "email.parser", "tempfile", "xml.sax.handler", "copy", "bz2", "lzma", "hashlib", "ssl"):
        try:
            importlib.import_module(name)
        except ImportError:
            pass
    import time
    time.strptime("2020", "%Y")


def seed_hashes():
    """Objects hashed by address would order sets differently in every process: parsers,
    serialisers and factories get a hash drawn once per object from the run's own stream."""
    mods = ["opyenxes.data_in.XesXmlParser.XesXmlParser", "opyenxes.data_in.XMxmlParser.XMxmlParser",
            "opyenxes.data_out.XesXmlSerializer.XesXmlSerializer",
            "opyenxes.data_out.XMxmlSerializer.XMxmlSerializer", "opyenxes.factory.XFactory.XFactory"]
    for path in mods:
        mod, name = path.rsplit(".", 1)
        cls = getattr(importlib.import_module(mod), name)
        if cls.__hash__ is object.__hash__:
            cls.__hash__ = sim_hash


def sim_hash(self):
    h = self.__dict__.get("_sim_hash")
    if h is None:
        ctx = kernel.CURRENT
        h = ctx.c.draw("hash", 64) if ctx is not None else 0
        self.__dict__["_sim_hash"] = h
    return h


def library_frame(tb):
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(kernel.SRC):
            return True
        tb = tb.tb_next
    return False


# A property's code uses only the library's documented interface; if it trips over a result with one
# of these, the result was not what the interface promises.
UNUSABLE = (AttributeError, TypeError, KeyError, IndexError, ValueError, OverflowError, RecursionError, StopIteration)
ORACLE = (os.sep + os.path.join("sim", "props") + os.sep, os.sep + os.path.join("sim", "model.py"),
          os.sep + os.path.join("sim", "common.py"))


def oracle_frame(tb):
    while tb.tb_next is not None:
        tb = tb.tb_next
    return any(x in tb.tb_frame.f_code.co_filename for x in ORACLE)


def last_frames(e, n=4):
    out = []
    for f in traceback.extract_tb(e.__traceback__)[-n:]:
        out.append("%s:%d %s" % (os.path.basename(f.filename), f.lineno, f.name))
    return " < ".join(reversed(out))


def judge(e):
    """Exception that escaped a property's run -> (verdict, class, message)."""
    if isinstance(e, Violation):
        return "violation", e.cls, e.msg
    if isinstance(e, StepLimit):
        return "violation", "no-progress", "no progress within the step budget: %s" % e
    if isinstance(e, OSError) and e.errno in ENV_ERRNOS and "simulated" not in str(e):
        return "error", type(e).__name__, "%s [%s]" % (e, last_frames(e))
    if isinstance(e, (HarnessError, SystemExit)):
        return "error", type(e).__name__, "%s [%s]" % (e, last_frames(e, 8))
    if isinstance(e, MemoryError) and "simulated" not in str(e):
        return "error", "MemoryError", last_frames(e)
    if library_frame(e.__traceback__):
        return "violation", "raised:" + type(e).__name__, "the library raised %r [%s]" % (e, last_frames(e))
    if isinstance(e, UNUSABLE) and oracle_frame(e.__traceback__):
        return "violation", "unusable:" + type(e).__name__, "what the library returned cannot be used: %r [%s]" % (e, last_frames(e))
    return "error", type(e).__name__, "%r [%s]" % (e, last_frames(e, 8))


def execute(prop, req, scratch):
    """One run in this (forked) process.  Returns the reply dict."""
    ctx = Ctx(prop, req["seed"], req["config"], replay=req.get("streams"), keep_log=req.get("log", False))
    root = os.path.join(scratch, "run")
    disk.R["makedirs"](root, exist_ok=True)
    ctx.root = root
    ctx.urandom = seams.Entropy(req["seed"])
    os.environ["HOME"] = root
    os.environ["USERPROFILE"] = root
    os.environ.pop("TZ", None)
    os.environ["TZ"] = "UTC0"
    import time
    time.tzset()
    import random
    random.seed(req["seed"])
    kernel.CURRENT = ctx
    stepper = sched.Stepper(ctx)
    ctx.stepper = stepper
    sched.ACTIVE = stepper
    verdict, cls, msg = "ok", "", ""
    try:
        prop.run(ctx)
        if ctx.violation is not None:
            raise ctx.violation
    except BaseException as e:       # noqa: classified below
        sched.ACTIVE = None
        if ctx.violation is not None:
            e = ctx.violation
        verdict, cls, msg = judge(e)
    sched.ACTIVE = None
    ctx.steps += stepper.n
    kernel.CURRENT = None
    if ctx.fs is not None and ctx.fs.escapes and verdict == "ok":
        verdict, cls, msg = "violation", "outside-write", \
            "the library wrote outside its own folder: %r" % (ctx.fs.escapes[:3],)
    out = {"i": req.get("i"), "v": verdict, "cls": cls, "msg": msg[:1500], "digest": ctx.digest(),
           "steps": ctx.steps, "ops": ctx.ops, "sim": ctx.clock.total, "faults": ctx.faults,
           "probes": ctx.probes, "states": sorted(ctx.states)[:200], "nt": bool(ctx.nontrivial),
           "loc": ctx.loc_hits}
    if ctx.sample is not None:
        out["sample"] = str(ctx.sample)[:600]
    if verdict != "ok" or req.get("want_streams"):
        out["streams"] = ctx.c.trimmed()
    if ctx.trace is not None:
        out["trace"] = ctx.trace
    return out


def child_main(prop, req, wfd, scratch):
    try:
        signal.signal(signal.SIGINT, signal.SIG_DFL)
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        out = execute(prop, req, scratch)
    except BaseException as e:      # noqa
        out = {"i": req.get("i"), "v": "error", "cls": type(e).__name__, "msg": repr(e) + " " + last_frames(e, 8),
               "digest": "", "steps": 0, "ops": 0, "sim": 0, "faults": {}, "probes": {}, "states": [], "nt": False,
               "loc": {}}
    data = json.dumps(out).encode()
    view = memoryview(data)
    while view:
        n = os.write(wfd, view)
        view = view[n:]
    os._exit(0)


def fork_run(prop, req, scratch):
    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(rfd)
        child_main(prop, req, wfd, scratch)
    os.close(wfd)
    chunks = []
    deadline = seams.real_time() + RUN_TIMEOUT
    timed_out = False
    while True:
        left = deadline - seams.real_time()
        if left <= 0:
            timed_out = True
            break
        r, _, _ = select.select([rfd], [], [], left)
        if not r:
            timed_out = True
            break
        data = os.read(rfd, 1 << 16)
        if not data:
            break
        chunks.append(data)
    os.close(rfd)
    if timed_out:
        os.kill(pid, signal.SIGKILL)
    _, status = os.waitpid(pid, 0)
    clean(os.path.join(scratch, "run"))
    if timed_out:
        return err(req, "hang", "run did not finish in %d s of wall time (killed)" % RUN_TIMEOUT)
    try:
        return json.loads(b"".join(chunks))
    except ValueError:
        return err(req, "died", "run process ended with status %d and no result" % status)


def err(req, cls, msg):
    return {"i": req.get("i"), "v": "error", "cls": cls, "msg": msg, "digest": "", "steps": 0, "ops": 0,
            "sim": 0, "faults": {}, "probes": {}, "states": [], "nt": False, "loc": {}}


def clean(root):
    if os.path.isdir(root):
        for d, ds, fs in os.walk(root, topdown=False):
            for f in fs:
                disk.R["unlink"](os.path.join(d, f))
            for x in ds:
                p = os.path.join(d, x)
                if os.path.islink(p):
                    disk.R["unlink"](p)
                else:
                    disk.R["rmdir"](p)


def main(prop_id):
    out = os.fdopen(os.dup(1), "w", buffering=1)
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    seams.install()
    import_library()
    seed_hashes()
    prop = importlib.import_module("sim.props." + prop_id.lower())
    if hasattr(prop, "prepare"):
        prop.prepare()
    sched.install()
    import tempfile
    scratch = tempfile.mkdtemp(prefix="verif-sim-", dir=disk.scratch_base())
    import gc
    gc.collect()
    gc.freeze()
    gc.disable()            # collections would run finalisers at uncontrolled moments
    out.write(json.dumps({"ready": True}) + "\n")
    try:
        for line in sys.stdin:
            reqs = json.loads(line)
            for req in reqs:
                out.write(json.dumps(fork_run(prop, req, scratch)) + "\n")
    finally:
        disk.remove_tree(scratch)
