"""C17: a timer reports exactly the time that elapsed."""
import re

from .. import common
from ..sched import Scheduler

ID = "C17"
CONFIGS = [("history", 3), ("threads", 3), ("bytecode", 1)]
RUNS = {"quick": 4000, "thorough": 150000}
RULE = ("one case = a history of 3-24 creations, starts, stops and readings of 1-4 timers, with the simulated clock advancing by "
        "nothing to years in between and at each reading of the clock, in one thread or several, timers also being read by threads "
        "that do not run them; each duration must lie between the bounds given by the clock before and after each call; "
        "non-trivial = a timer was read after the clock had moved; distinct = different event log")
STATE_MEASURE = "hash of the history of operations and magnitudes of time, or the sequence of preemptions"
REAL = ["opyenxes.utils.XTimer"]
STUB = ["clock", "thread scheduler"]
ASSUMPTIONS = common.BASE_ASSUMPTIONS + [
    common.THREAD_ASSUMPTION,
    "the system time moves forward while a timer is in use (a timer uses the system time, as documented)",
    "durations may be rounded to milliseconds", "a timer is not read while another thread starts or stops it", "a stopped timer is not stopped again before it is started again"]
STEPS = [0, 0, 1000, 999_000, 1_000_000, 1_001_000, 59_999_000, 60_000_000, 3_600_000_000, 3_600_001_000, 86_400_000_000,
         86_399_999_000, 90_061_001_000, 40 * 86_400_000_000, 400 * 86_400_000_000, 7, 123_456_789]
UNITS = {"day": 86_400_000, "hour": 3_600_000, "minute": 60_000, "second": 1000, "millisecond": 1}
SLACK = 0.01            # ms; a double holds the time of day in ms to 0.0005


class Timer:
    """A timer of the library and what is known about it, in microseconds of the simulated clock."""

    def __init__(self, ctx):
        from opyenxes.utils.XTimer import XTimer
        self.ctx = ctx
        t0 = ctx.clock.mono
        self.timer = XTimer()
        self.begun = (t0, ctx.clock.mono)
        self.ended = None
        self.last = None            # duration read since the stop
        self.moved = False
        self.version = 0            # counts changes, for readers in other threads

    def start(self):
        self.version += 1
        t0 = self.ctx.clock.mono
        self.timer.start()
        self.begun, self.ended, self.last = (t0, self.ctx.clock.mono), None, None
        self.version += 1

    def stop(self):
        if self.ended is not None:
            return
        self.version += 1
        t0 = self.ctx.clock.mono
        self.timer.stop()
        self.ended = (t0, self.ctx.clock.mono)
        self.version += 1

    def read(self, how, who):
        """Read the duration; judged only if nobody changed the timer meanwhile."""
        ctx = self.ctx
        v, t0 = self.version, ctx.clock.mono
        got, exc = None, None
        try:
            got = self.timer.get_duration() if how == "number" else self.timer.get_duration_string()
        except Exception as e:
            exc = e
        t1 = ctx.clock.mono
        ctx.ops += 1
        if self.version != v or v % 2:
            ctx.probe("changed while read")     # nothing is promised, not even a number
            return
        if exc is not None:
            ctx.fail("raised", "%s: reading the duration raised %r" % (who, exc))
        if how == "text":
            got = self.parse(got, who)
        ctx.check(isinstance(got, (int, float)) and not isinstance(got, bool), "not-a-number", lambda: "%s: duration %r" % (who, got))
        end = self.ended or (t0, t1)
        lo, hi = (end[0] - self.begun[1]) / 1000, (end[1] - self.begun[0]) / 1000
        slack = SLACK if how == "number" else 2 * SLACK
        ctx.check(lo - slack < got < hi + slack, "wrong-duration", lambda: "%s: %s read %r ms; between %r and %r ms elapsed" % (
            who, "a stopped timer" if self.ended else "a running timer", got, lo, hi))
        if self.ended and how == "number":
            ctx.check(self.last is None or got == self.last, "changed", lambda: "%s: a stopped timer changed from %r to %r" % (
                who, self.last, got))
            self.last = got
        if hi > 0:
            ctx.nontrivial = True
        ctx.log(who, how, self.ended is not None)

    def parse(self, text, who):
        """Sum of the parts, e.g. '2 days, 1 hours, 3 milliseconds'."""
        ctx = self.ctx
        total = 0.0
        ctx.check(isinstance(text, str), "text", lambda: "%s: the text is %r" % (who, text))
        seen = []
        for part in text.split(","):
            m = re.fullmatch(r"\s*(-?[0-9.]+(?:e[-+]?[0-9]+)?)\s*(day|hour|minute|second|millisecond)s?\s*", part)
            ctx.check(m is not None, "text", lambda: "%s: cannot understand the duration %r" % (who, text))
            total += float(m.group(1)) * UNITS[m.group(2)]
            seen.append(m.group(2))
        ctx.check(len(set(seen)) == len(seen), "text", lambda: "%s: a unit is given twice: %r" % (who, text))
        return total


def run(ctx):
    c = ctx.c
    if ctx.config == "bytecode":
        from .. import sched
        sched.use_instructions()
    ctx.clock.advance(c.pick("fault", [0, 1, 999_999, 12_345_678_901]))      # since the library was loaded
    trail = []
    if ctx.config == "history":
        ctx.clock.tick = c.pick("fault", [0, 0, 1, 500])
        timers = []
        for _ in range(3 + c.draw("plan", 22)):
            op = c.pick("plan", ["new", "read", "read", "start", "stop", "text"]) if timers else "new"
            ctx.clock.advance(c.pick("fault", STEPS))
            if op == "new":
                if len(timers) < 4:
                    timers.append(Timer(ctx))
                    trail.append("new")
                continue
            i = c.draw("plan", len(timers))
            act(timers[i], op, "timer %d" % i)
            trail.append((op, i))
        for i, t in enumerate(timers):
            t.read("number", "timer %d at the end" % i)
            t.read("text", "timer %d at the end" % i)
        ctx.state(*trail)
        ctx.sample = "history: %s" % (trail,)
        return
    s = Scheduler(ctx)
    n = 2 + c.draw("plan", 3)
    shared = []
    ctx.clock.tick = c.pick("fault", [0, 1, 500])

    def body(i, ops):
        def f():
            mine = Timer(ctx)
            shared.append(mine)
            for op, x, step in ops:
                s.point("clock", 0.3)
                ctx.clock.advance(step)
                if op == "other":
                    shared[x % len(shared)].read("number", "t%d of another's" % i)
                elif op == "new":
                    mine = Timer(ctx)
                    shared.append(mine)
                else:
                    act(mine, op, "t%d" % i)
        return f
    for i in range(n):
        ops = [(c.pick("plan", ["read", "start", "stop", "other", "read", "text", "new"]), c.draw("plan", 8), c.pick("fault", STEPS))
               for _ in range(2 + c.draw("plan", 6))]
        trail.append([o[0] for o in ops])
        s.spawn("t%d" % i, body(i, ops))
    s.run()
    for t in s.tasks:
        if t.exc is not None:
            raise t.exc
    for i, t in enumerate(shared):
        t.read("number", "timer %d at the end" % i)
    ctx.sample = "%d threads: %s" % (n, trail)


def act(t, op, who):
    if op in ("read", "text"):
        t.read("number" if op == "read" else "text", who)
    else:
        getattr(t, op)()
        t.ctx.ops += 1
