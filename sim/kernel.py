"""The context of one simulated run."""
import hashlib
import os

from .choices import Choices

SRC = os.path.realpath(os.environ.get("OPYENXES_SRC", "/repo/src")) + os.sep + "opyenxes" + os.sep


class Violation(Exception):
    """The property is broken.  `cls` names the kind of violation (kept while shrinking)."""

    def __init__(self, cls, msg):
        super().__init__("%s: %s" % (cls, msg))
        self.cls = cls
        self.msg = msg


class HarnessError(Exception):
    """The simulator itself failed; never reported as a violation."""


class SimCrash(BaseException):
    """The simulated process died here."""


class SimAbort(BaseException):
    """Internal: unwinds simulated threads when a run is over."""


class StepLimit(BaseException):
    """The code under test did not finish within the step budget."""


CURRENT = None  # the active Ctx of this process, or None


class Clock:
    """The simulated clock, in integer microseconds.  The wall clock can be stepped; the monotonic
    one only moves forward."""

    def __init__(self):
        self.mono = 1_000_000_000
        self.wall = 1_500_000_000_000_000
        self.reads = 0
        self.tick = 0      # microseconds added by each reading
        self.total = 0
        self.on_read = None

    def advance(self, micros):
        self.mono += micros
        self.wall += micros
        self.total += micros

    def step(self, micros):
        """A jump of the wall clock (NTP, operator); monotonic time is unaffected."""
        self.wall += micros

    def read(self):
        self.reads += 1
        if self.tick:
            self.advance(self.tick)
        if self.on_read:
            self.on_read()

    def time(self):
        self.read()
        return self.wall / 1e6

    def time_ns(self):
        self.read()
        return self.wall * 1000

    def monotonic(self):
        self.read()
        return self.mono / 1e6

    def monotonic_ns(self):
        self.read()
        return self.mono * 1000


class Ctx:
    def __init__(self, prop, seed, config, replay=None, keep_log=False):
        self.prop = prop
        self.seed = seed
        self.config = config
        self.c = Choices(seed, replay)
        self.clock = Clock()
        self.sched = None
        self.fs = None
        self.net = None
        self.urandom = None
        self.lives = 0
        self.pid = 1            # of the current simulated process; containers start with 1 each time
        self.stdout = []
        self.console = None     # what the standard output of the program is connected to, if it may fail
        self.faults = {}        # fault kind -> times it actually fired
        self.probes = {}        # named rare condition -> times it was hit
        self.ops = 0
        self.states = set()     # fingerprints of distinct states or interleavings
        self.nontrivial = False
        self.sample = None
        self.trace = [] if keep_log else None
        self._h = hashlib.sha256()
        self.steps = 0
        self.violation = None
        self.loc_hits = {}
        self.events = None      # event log of a life, carried back to the run

    # -- drawing --
    def plan(self, n):
        return self.c.draw("plan", n)

    # -- event log: never draws, never reads a clock --
    def log(self, *ev):
        self.relog(repr(ev))

    def relog(self, s):
        if self.events is not None:
            self.events.append(s)
        self._h.update(s.encode("utf-8", "surrogatepass"))
        if self.trace is not None and len(self.trace) < 4000:
            self.trace.append(s if len(s) < 400 else s[:400] + "...")

    def digest(self):
        h = self._h.copy()
        h.update(repr(sorted(self.c.rec.items())).encode())
        h.update(repr(self.steps).encode())
        return h.hexdigest()[:20]

    def fired(self, kind):
        self.faults[kind] = self.faults.get(kind, 0) + 1
        self.log("fault", kind)

    def probe(self, name):
        self.probes[name] = self.probes.get(name, 0) + 1

    def state(self, *what):
        self.states.add(hashlib.sha1(repr(what).encode("utf-8", "surrogatepass")).hexdigest()[:12])

    def fail(self, cls, msg):
        v = Violation(cls, msg)
        if self.violation is None:
            self.violation = v
        raise v

    def check(self, cond, cls, msg):
        if not cond:
            self.fail(cls, msg() if callable(msg) else msg)
