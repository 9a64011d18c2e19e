"""Seeded cooperative scheduler over real threads.

One simulated thread runs at a time (baton passing over real locks); which one runs next, and where
the running one is preempted, is drawn from the "sched" stream.  Preemption points are the
source-line events (optionally the bytecode events) of the library's code, simulated I/O, and
simulated locks.  The same line events count progress (step limit) and are the points at which
asynchronous exceptions are raised.
"""
import _thread
import gc
import sys
import threading
import types
import zlib

from . import kernel
from .kernel import HarnessError, SimAbort, StepLimit

TOOL = 4
MON = sys.monitoring
E = MON.events

_real_allocate = _thread.allocate_lock
_get_ident = _thread.get_ident

SKIP = {}              # file name -> lines at which no exception is raised, see uninterruptible()

ACTIVE = None          # object with .line(code, where); None switches the callbacks off
CODES = []


def _nested(code, out):
    out.append(code)
    for const in code.co_consts:
        if isinstance(const, types.CodeType):
            _nested(const, out)


def collect_codes():
    """All code objects of the library that are reachable from live functions."""
    seen = {}
    for obj in gc.get_objects():
        if isinstance(obj, types.FunctionType) and obj.__code__.co_filename.startswith(kernel.SRC):
            out = []
            _nested(obj.__code__, out)
            for code in out:
                seen[id(code)] = code
    return list(seen.values())


def uninterruptible(path):
    """Lines at which a line event stands at a place where CPython cannot deliver an asynchronous
    exception (the exit of a with block), or where it would only test the interpreter (the gap
    between acquire() and try, the inside of finally and of lock methods)."""
    import ast
    lines = set()
    try:
        with open(path, "rb") as f:
            tree = ast.parse(f.read())
    except (OSError, SyntaxError, ValueError):
        return lines

    def span(nodes):
        for n in nodes:
            lines.update(range(n.lineno, (n.end_lineno or n.lineno) + 1))

    for node in ast.walk(tree):
        if isinstance(node, (ast.With, ast.AsyncWith)):
            lines.update(range(node.lineno, max(node.body[0].lineno, node.lineno + 1)))
        elif isinstance(node, ast.Try):
            lines.add(node.lineno)
            span(node.finalbody)
        elif isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
            if node.name in ("__enter__", "__exit__", "__del__", "acquire", "release"):
                span([node])
            for dec in node.decorator_list:
                if "contextmanager" in ast.dump(dec):
                    span([node])
    return lines


def may_interrupt(code, where):
    f = code.co_filename
    if where < 0:
        return False
    if f not in SKIP:
        SKIP[f] = uninterruptible(f)
    return where not in SKIP[f]


def _on_line(code, line):
    a = ACTIVE
    if a is not None:
        a.line(code, line)


def _on_instr(code, offset):
    a = ACTIVE
    if a is not None:
        a.line(code, -1 - offset)


def install():
    """In the zygote, after the library was imported."""
    global CODES
    MON.use_tool_id(TOOL, "verif-sim")
    MON.register_callback(TOOL, E.LINE, _on_line)
    MON.register_callback(TOOL, E.INSTRUCTION, _on_instr)
    CODES = collect_codes()
    for code in CODES:
        MON.set_local_events(TOOL, code, E.LINE)
        if code.co_filename not in SKIP:
            SKIP[code.co_filename] = uninterruptible(code.co_filename)


def use_instructions():
    for code in CODES:
        MON.set_local_events(TOOL, code, E.INSTRUCTION)


def lines_off():
    for code in CODES:
        MON.set_local_events(TOOL, code, 0)


class Stepper:
    """Line events of a run without simulated threads: step limit and interruption."""

    def __init__(self, ctx, limit=10_000_000):
        self.ctx = ctx
        self.limit = limit
        self.n = 0
        self.inject_at = None
        self.inject_exc = None
        self.injected = None
        self.main = _get_ident()

    def line(self, code, where):
        self.n += 1
        if self.n > self.limit:
            self.limit += 200_000
            raise StepLimit("more than %d steps in %s" % (self.n - 1, code.co_qualname))
        if self.inject_at is not None and self.n >= self.inject_at and may_interrupt(code, where):
            exc = self.inject_exc
            self.inject_at = None
            self.injected = "%s:%d" % (code.co_qualname, where)
            raise exc


class Task:
    __slots__ = ("name", "fn", "lock", "state", "result", "exc", "ident", "steps", "hits",
                 "inject_at", "inject_exc", "injected", "wait", "idx")

    def __init__(self, idx, name, fn):
        self.idx = idx
        self.name = name
        self.fn = fn
        self.lock = _real_allocate()
        self.lock.acquire()
        self.state = "ready"
        self.result = None
        self.exc = None
        self.ident = None
        self.steps = 0
        self.hits = {}
        self.inject_at = None
        self.inject_exc = None
        self.injected = None
        self.wait = None


class Scheduler:
    GAPS = [0, 300, 100, 40, 15, 6, 2]      # run-level preemption gap scale; 0 = never

    def __init__(self, ctx, max_steps=1_500_000):
        self.ctx = ctx
        self.c = ctx.c
        self.tasks = []
        self.cur = None
        self.steps = 0
        self.max_steps = max_steps
        self.abort = False
        self.deadlock = None
        self.livelock = None
        self.main_lock = _real_allocate()
        self.main_lock.acquire()
        self.switches = 0
        self.sig = []
        # swarm: how preemptions are spread in this run
        self.gap_scale = self.GAPS[self.c.draw("plan", len(self.GAPS))]
        self.first_den = [0, 24, 10, 5, 3][self.c.draw("plan", 5)]
        self.first_hits = 1 + self.c.draw("plan", 3)
        # after a preemption the others run on undisturbed for a while, so that they can finish
        # something inside the gap they were let into
        self.quiet = [0, 0, 100, 600, 3000, 12000][self.c.draw("plan", 6)]
        self.quiet_left = 0
        # or: most preemptions in a few of the functions, drawn by name
        self.focus = [0, 0, 0, 6, 24][self.c.draw("plan", 5)]
        self.focus_on = self.c.draw("plan", self.focus) if self.focus else 0
        self.focus_den = 2 + self.c.draw("plan", 4)
        self.in_focus = {}
        self.gap = self._new_gap()
        ctx.sched = self

    def _new_gap(self):
        if not self.gap_scale:
            return 1 << 60
        return 1 + self.c.draw("sched", 2 * self.gap_scale)

    def spawn(self, name, fn):
        t = Task(len(self.tasks), name, fn)
        self.tasks.append(t)
        return t

    # ---- called in task threads ----
    def line(self, code, where):
        t = self.cur
        if t is None or t.ident != _get_ident():
            return
        self.steps += 1
        if self.steps > self.max_steps:
            self.max_steps += 100_000
            self.livelock = "%s in %s" % (t.name, code.co_qualname)
            raise StepLimit(self.livelock)
        t.steps += 1
        if t.inject_at is not None and t.steps >= t.inject_at and may_interrupt(code, where):
            exc = t.inject_exc
            t.inject_at = None
            t.injected = "%s:%d" % (code.co_qualname, where)
            raise exc
        if self.quiet_left:
            self.quiet_left -= 1
            return
        if self.focus:
            hot = self.in_focus.get(code)
            if hot is None:
                hot = self.in_focus[code] = zlib.crc32(code.co_qualname.encode()) % self.focus == self.focus_on
            if hot and self.c.draw("sched", self.focus_den) == self.focus_den - 1:
                self._preempt(code, where)
                return
        key = (code, where)
        h = t.hits.get(key, 0)
        if h < self.first_hits:
            t.hits[key] = h + 1
            den = self.first_den
            if den and self.c.draw("sched", den) == den - 1:
                self._preempt(code, where)
                return
        self.gap -= 1
        if self.gap <= 0:
            self.gap = self._new_gap()
            self._preempt(code, where)

    def point(self, what, p=0.25):
        """A preemption point outside the library's own lines (I/O, lock, explicit)."""
        t = self.cur
        if t is None or t.ident != _get_ident():
            return
        if self.abort:
            raise SimAbort()
        self.steps += 1
        if self.steps > self.max_steps:
            self.max_steps += 100_000
            self.livelock = "%s at %s" % (t.name, what)
            raise StepLimit(self.livelock)
        if self.c.chance("sched", p):
            self._preempt(None, what)

    def _preempt(self, code, where):
        cur = self.cur
        others = [t for t in self.tasks if t.state == "ready" and t is not cur]
        if not others:
            return
        nxt = others[self.c.draw("sched", len(others))]
        self._switch(cur, nxt, code, where)

    def _switch(self, cur, nxt, code, where):
        self.switches += 1
        if self.quiet:
            self.quiet_left = self.c.draw("sched", self.quiet)
        name = code.co_qualname if code is not None else ""
        if len(self.sig) < 400:
            self.sig.append((cur.idx, nxt.idx, name, where))
        self.ctx.log("switch", cur.name, nxt.name, name, where)
        self.cur = nxt
        nxt.lock.release()
        cur.lock.acquire()
        if self.abort:
            raise SimAbort()

    def block(self, what):
        """The current task cannot go on until somebody calls wake(what)."""
        cur = self.cur
        cur.state = "blocked"
        cur.wait = what
        self._next(cur)
        cur.lock.acquire()
        if self.abort:
            raise SimAbort()

    def wake(self, what):
        for t in self.tasks:
            if t.state == "blocked" and t.wait is what:
                t.state = "ready"
                t.wait = None

    def _next(self, cur):
        """cur cannot run any more (done or blocked): pass the baton on."""
        ready = [t for t in self.tasks if t.state == "ready"]
        if ready:
            nxt = ready[self.c.draw("sched", len(ready))]
            self.ctx.log("next", cur.name, nxt.name)
            if len(self.sig) < 400:
                self.sig.append((cur.idx, nxt.idx, "", 0))
            self.cur = nxt
            nxt.lock.release()
            return
        blocked = [t for t in self.tasks if t.state == "blocked"]
        if blocked:
            if not self.abort:
                self.deadlock = ", ".join(t.name for t in blocked)
                self.ctx.log("deadlock", self.deadlock)
                self.abort = True
            for t in blocked:
                t.state = "ready"
            nxt = blocked[0]
            self.cur = nxt
            nxt.lock.release()
            return
        self.cur = None
        self.main_lock.release()

    def _thread(self, t):
        t.ident = _get_ident()
        t.lock.acquire()
        try:
            if not self.abort:
                t.result = t.fn()
        except SimAbort:
            pass
        except BaseException as e:      # noqa: recorded and judged by the property
            t.exc = e
        t.state = "done"
        t.steps += 0
        self._next(t)

    # ---- called in the main thread ----
    def run(self):
        global ACTIVE
        prev = ACTIVE
        if not self.tasks:
            return
        for t in self.tasks:
            _thread.start_new_thread(self._thread, (t,))
        while any(t.ident is None for t in self.tasks):     # identities known before the first line
            _thread_yield()
        ACTIVE = self
        first = self.tasks[self.c.draw("sched", len(self.tasks))]
        self.ctx.log("first", first.name)
        self.cur = first
        first.lock.release()
        last = -1
        while not self.main_lock.acquire(timeout=20):
            if self.steps == last:
                raise HarnessError("scheduler stuck: %r" % [(t.name, t.state) for t in self.tasks])
            last = self.steps
        ACTIVE = prev
        self.cur = None
        self.ctx.sched = None
        self.ctx.steps += self.steps
        for t in self.tasks:
            t.hits = None
        self.ctx.state(self.sig)
        if self.livelock:
            self.ctx.fail("no-progress", "a thread made no progress within the step budget: " + self.livelock)
        if self.deadlock:
            self.ctx.fail("deadlock", "threads wait for one another for ever: " + self.deadlock)


def _thread_yield():
    import time
    time_sleep = REAL_SLEEP or time.sleep
    time_sleep(0)


REAL_SLEEP = None


# ---- simulated locks ----
def _task():
    ctx = kernel.CURRENT
    s = ctx.sched if ctx is not None else None
    if s is not None and s.cur is not None and s.cur.ident == _get_ident():
        return s, s.cur
    return None, None


def _main_blocks():
    """The only thread there is waits for a lock."""
    ctx = kernel.CURRENT
    if ctx is None:
        raise HarnessError("main thread would block on a simulated lock")
    ctx.fail("deadlock", "the only thread waits for a lock for ever")


class SimLock:
    def __init__(self):
        self._owner = None

    def acquire(self, blocking=True, timeout=-1):
        s, t = _task()
        if s is None:
            if self._owner is None:
                self._owner = "main"
                return True
            if not blocking or timeout >= 0:
                return False
            _main_blocks()
        s.point("lock", 0.15)
        tries = 0
        while self._owner is not None:
            if not blocking:
                return False
            if timeout is not None and timeout >= 0:
                tries += 1
                if tries > 3:
                    s.ctx.clock.advance(int(timeout * 1e6))
                    return False
                s._preempt(None, "lock-wait")
                continue
            s.block(self)
        self._owner = t
        return True

    def release(self):
        if self._owner is None:
            raise RuntimeError("release unlocked lock")
        self._owner = None
        s, t = _task()
        if s is not None:
            s.wake(self)
            s.point("unlock", 0.15)

    def locked(self):
        return self._owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


class SimRLock:
    def __init__(self):
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        s, t = _task()
        me = t if t is not None else "main"
        if self._owner is me:
            self._count += 1
            return True
        if s is None:
            if self._owner is None:
                self._owner = me
                self._count = 1
                return True
            if not blocking or timeout >= 0:
                return False
            _main_blocks()
        s.point("lock", 0.15)
        tries = 0
        while self._owner is not None:
            if not blocking:
                return False
            if timeout is not None and timeout >= 0:
                tries += 1
                if tries > 3:
                    s.ctx.clock.advance(int(timeout * 1e6))
                    return False
                s._preempt(None, "lock-wait")
                continue
            s.block(self)
        self._owner = t
        self._count = 1
        return True

    def release(self):
        s, t = _task()
        me = t if t is not None else "main"
        if self._owner is not me:
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if self._count == 0:
            self._owner = None
            if s is not None:
                s.wake(self)
                s.point("unlock", 0.15)

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    # used by threading.Condition
    def _is_owned(self):
        s, t = _task()
        return self._owner is (t if t is not None else "main")

    def _release_save(self):
        count, self._count = self._count, 1
        self.release()
        return count

    def _acquire_restore(self, count):
        self.acquire()
        self._count = count


def _from_library():
    f = sys._getframe(2)
    while f is not None:
        name = f.f_code.co_filename
        if name.startswith(kernel.SRC):
            return True
        if name != threading.__file__ and not name.endswith("/threading.py"):
            return False
        f = f.f_back
    return False


def install_locks():
    """Before the library is imported: locks it allocates are simulated ones."""
    real_lock, real_rlock = threading.Lock, threading.RLock

    def Lock():
        return SimLock() if _from_library() else real_lock()

    def RLock():
        return SimRLock() if _from_library() else real_rlock()

    threading.Lock = Lock
    threading.RLock = RLock
    threading._allocate_lock = Lock
    _thread_alloc = _thread.allocate_lock

    def allocate_lock():
        return SimLock() if _from_library() else _thread_alloc()
    _thread.allocate_lock = allocate_lock
