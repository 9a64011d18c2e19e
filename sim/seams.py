"""Installs every seam.  Called once in the zygote, before the library is imported."""
import io
import os
import random
import sys
import time

from . import kernel, sched, disk, net

real = {}


class Stdout(io.TextIOBase):
    """Captured standard output of a simulated process (pure Python, no locks)."""
    encoding = "utf-8"

    def write(self, s):
        ctx = kernel.CURRENT
        if ctx is not None:
            if ctx.console is not None:
                ctx.console.write(s)
            if len(ctx.stdout) < 1000:
                ctx.stdout.append(s)
        else:
            real["stdout"].write(s)
        return len(s)

    def flush(self):
        ctx = kernel.CURRENT
        if ctx is None:
            real["stdout"].flush()
        elif ctx.console is not None:
            ctx.console.flush()

    def isatty(self):
        ctx = kernel.CURRENT
        if ctx is not None and ctx.console is not None:
            return ctx.console.isatty()
        return False


class Entropy:
    """The OS entropy source of one simulated process."""
    def __init__(self, seed):
        self.rng = random.Random("entropy/%s" % (seed,))
        self.calls = 0
        self.fail_in = 0

    def urandom(self, n):
        self.calls += 1
        if self.fail_in:
            self.fail_in -= 1
            if not self.fail_in:
                kernel.CURRENT.fired("entropy:error")
                raise OSError(5, "simulated entropy source failure")
        return self.rng.randbytes(n)


def calendar_time():
    """datetime.now() and the defaults of time.localtime() and friends read the simulated clock."""
    import datetime as dt
    plain = dt.datetime

    class Meta(type):
        def __instancecheck__(cls, x):
            return isinstance(x, plain)

        def __subclasscheck__(cls, c):
            return issubclass(c, plain)

    class datetime(plain, metaclass=Meta):
        @classmethod
        def now(cls, tz=None):
            ctx = kernel.CURRENT
            return cls.fromtimestamp(real["time"]() if ctx is None else ctx.clock.time(), tz)

        @classmethod
        def utcnow(cls):
            return cls.now(dt.timezone.utc).replace(tzinfo=None)

        @classmethod
        def today(cls):
            return cls.now()
    datetime.__module__ = "datetime"
    datetime.__qualname__ = "datetime"

    plain_date = dt.date

    class DateMeta(type):
        def __instancecheck__(cls, x):
            return isinstance(x, plain_date)

        def __subclasscheck__(cls, c):
            return issubclass(c, plain_date)

    class date(plain_date, metaclass=DateMeta):
        @classmethod
        def today(cls):
            n = datetime.now()
            return cls(n.year, n.month, n.day)
    date.__module__ = "datetime"
    date.__qualname__ = "date"
    dt.datetime = datetime
    dt.date = date

    def default(name):
        orig = getattr(time, name)

        def f(secs=None):
            ctx = kernel.CURRENT
            if secs is None and ctx is not None:
                secs = ctx.clock.time()
            return orig(secs)
        f.__name__ = name
        setattr(time, name, f)
        return f
    default("gmtime")
    default("ctime")
    localtime = default("localtime")
    strftime, asctime = time.strftime, time.asctime
    time.strftime = lambda fmt, t=None: strftime(fmt, localtime() if t is None else t)
    time.asctime = lambda t=None: asctime(localtime() if t is None else t)


def install():
    sched.install_locks()
    real["stdout"] = sys.stdout
    real["time"] = time.time
    real["sleep"] = time.sleep
    real["perf"] = time.perf_counter
    real["urandom"] = os.urandom
    sched.REAL_SLEEP = time.sleep

    def dispatch(name):
        orig = getattr(time, name)
        method = {"time": "time", "time_ns": "time_ns", "monotonic": "monotonic",
                  "monotonic_ns": "monotonic_ns", "perf_counter": "monotonic",
                  "perf_counter_ns": "monotonic_ns", "process_time": "monotonic",
                  "process_time_ns": "monotonic_ns"}[name]

        def f():
            ctx = kernel.CURRENT
            if ctx is None:
                return orig()
            return getattr(ctx.clock, method)()
        f.__name__ = name
        setattr(time, name, f)
    for name in ("time", "time_ns", "monotonic", "monotonic_ns", "perf_counter", "perf_counter_ns",
                 "process_time", "process_time_ns"):
        dispatch(name)

    def sleep(secs):
        ctx = kernel.CURRENT
        if ctx is None:
            return real["sleep"](secs)
        ctx.clock.advance(int(secs * 1e6))
        if ctx.sched is not None:
            ctx.sched.point("sleep", 1.0)
    time.sleep = sleep

    def urandom(n):
        ctx = kernel.CURRENT
        if ctx is None or ctx.urandom is None:
            return real["urandom"](n)
        return ctx.urandom.urandom(n)
    os.urandom = urandom
    random._urandom = urandom
    real["getpid"] = os.getpid

    def getpid():
        ctx = kernel.CURRENT
        return real["getpid"]() if ctx is None else ctx.pid
    os.getpid = getpid
    import uuid
    if hasattr(uuid, "_generate_time_safe"):
        uuid._generate_time_safe = None
    uuid._UuidCreate = None
    uuid.getnode = lambda: 0x0242AC110002
    calendar_time()
    disk.install()
    net.install()
    sys.stdout = Stdout()


def real_time():
    return real["time"]() if real else time.time()
