"""C14: a timestamp denotes the same instant on every host and at any time."""
import datetime as dt
import os
import time

from .. import common, lives, model
from ..sched import Scheduler

ID = "C14"
CONFIGS = [("host", 4), ("restart", 2), ("threads", 1)]
RUNS = {"quick": 4000, "thorough": 100000}
RULE = ("one case = 1-4 timestamps (fixed offsets to the minute or second, zones with daylight saving in and around gaps and folds, "
        "milliseconds since 1970; years 1 to 9999) stored in events in one of six ways, carried through 3-12 operations (read as date "
        "and as milliseconds, clone event, trace and log, copy between events, text and back, write XES and parse, read from a "
        "document with any zone notation) while the host's time zone and clock change between the operations, in the threads "
        "configuration by another thread during them, and in the restart configuration between processes; after each operation "
        "the instant must be the one given, exact for whole milliseconds; non-trivial = the zone or the clock changed; distinct = "
        "different event log")
STATE_MEASURE = "hash of the sequence of (operation, host zone)"
REAL = common.REAL + ["C library time zone rules (TZ, tzset)", "datetime and zoneinfo of CPython"]
STUB = ["host time zone and system clock", "thread scheduler", "processes (restart configuration)", "raw file layer"]
ASSUMPTIONS = common.BASE_ASSUMPTIONS + ["a date given without a zone is taken as UTC", common.THREAD_ASSUMPTION]
NO_ZONE = "no zone"

HOSTS = ["UTC0", "EST5EDT,M3.2.0,M11.1.0", "CET-1CEST,M3.5.0,M10.5.0/3", "<+0545>-5:45", "<+0530>-5:30",
         "LHST-10:30LHDT-11,M10.1.0,M4.1.0/2", "<+14>-14", "<-12>12", "<+1245>-12:45<+1345>,M9.5.0/2:45,M4.1.0/3:45",
         "IST-1GMT0,M10.5.0,M3.5.0/1", "NST3:30NDT,M3.2.0,M11.1.0", "<-03>3<-02>,M3.5.0/-2,M10.5.0/-1"]
NAMED = ["America/New_York", "Europe/Amsterdam", "Africa/Monrovia", "Australia/Lord_Howe", "Pacific/Apia", "Asia/Kathmandu"]
# instants around daylight-saving changes of those zones and other odd moments, in seconds
ODD = [1457852400, 1478408400, 1459040400, 1477789200, 1459609200 - 3600 * 10, 1475334000, 0, -1, 951782400, 1325203200,
       -1025741000, 1483228800 - 1, 4102444800, -62135596800 + 86400 * 2, 253402300799 - 86400 * 2]
CLOCKS = [0, 365 * 86400, -365 * 86400, 182 * 86400, 91 * 86400, -3600]


def set_zone(ctx, z):
    if os.environ.get("TZ") != z:
        os.environ["TZ"] = z
        time.tzset()
        ctx.fired("zone:change")
        ctx.log("zone", z)


def zoneinfo_of(name):
    try:
        import zoneinfo
        return zoneinfo.ZoneInfo(name)
    except Exception:           # no zone database here
        return None


class Summer(dt.tzinfo):
    """A zone with daylight saving, one hour from April to October at 01:00 UTC, repeated hour included."""

    def __init__(self, minutes):
        self.std = dt.timedelta(minutes=minutes)

    def dst_at(self, naive_utc):
        y = naive_utc.year
        return dt.datetime(y, 4, 1, 1) <= naive_utc < dt.datetime(y, 10, 1, 1)

    def utcoffset(self, d):
        if d is None:
            return None
        n = d.replace(tzinfo=None)
        hour = dt.timedelta(hours=1)
        try:
            first = self.dst_at(n - self.std - hour)    # as seen with summer time
            second = self.dst_at(n - self.std)
        except OverflowError:
            return self.std
        if first == second:
            return self.std + (hour if first else dt.timedelta())
        # gap or repeated hour: fold decides
        if first and not second:                        # the hour is repeated
            return self.std + (dt.timedelta() if d.fold else hour)
        return self.std + (hour if d.fold else dt.timedelta())

    def dst(self, d):
        o = self.utcoffset(d)
        return None if o is None else o - self.std

    def tzname(self, d):
        return "SIM" + ("ST" if d is not None and self.dst(d) else "T")

    def fromutc(self, d):
        n = d.replace(tzinfo=None)
        off = self.std + (dt.timedelta(hours=1) if self.dst_at(n) else dt.timedelta())
        fold = int(not self.dst_at(n) and n >= dt.datetime(n.year, 10, 1, 1) and n < dt.datetime(n.year, 10, 1, 2))
        return (n + off).replace(tzinfo=self, fold=fold)


def draw_instant(c):
    """Milliseconds since 1970, and extra microseconds below one."""
    k = c.draw("plan", 4)
    if k == 0:
        ms = 1_400_000_000_000 + c.draw("plan", 10_000_000_000)
    elif k == 1:
        ms = (c.pick("plan", ODD) + c.draw("plan", 4 * 3600) - 2 * 3600) * 1000 + c.draw("plan", 1000)
    elif k == 2:
        ms = -c.draw("plan", 60_000_000_000_000)
    else:
        ms = c.draw("plan", 250_000_000_000_000)
    us = c.draw("plan", 1000) if c.draw("plan", 4) == 3 else 0
    if c.draw("plan", 8) == 7:          # just before and at the full second
        ms, us = ms // 1000 * 1000 + c.pick("plan", [0, 999, 999]), c.pick("plan", [0, 499, 500, 999])
        unit = c.pick("plan", [1, 1, 60_000, 3_600_000, 86_400_000])        # of the minute, hour, day
        if unit > 1:
            ms = ms // unit * unit + (unit - 1 if ms % 1000 else 0)
    return ms, us


def draw_zone(c):
    """A tzinfo and its name."""
    k = c.draw("plan", 7)
    if k == 0:
        return dt.timezone.utc, "UTC"
    if k == 6:
        return None, NO_ZONE
    if k <= 2:
        m = c.pick("plan", [60, -300, 330, 345, -210, 765, 840, -720, 1, -1, -90, 1439, -1439, c.draw("plan", 2879) - 1439])
        return dt.timezone(dt.timedelta(minutes=m)), "%+d min" % m
    if k == 3:
        s = c.draw("plan", 2 * 86399) - 86399
        return dt.timezone(dt.timedelta(seconds=s)), "%+d s" % s
    if k == 4:
        name = c.pick("plan", NAMED)
        z = zoneinfo_of(name)
        if z is not None:
            return z, name
    m = c.pick("plan", [0, 60, -300, 630])
    return Summer(m), "summer time %+d min" % m


def make_date(ms, us, tz):
    d = model.EPOCH + dt.timedelta(milliseconds=ms, microseconds=us)
    return d.replace(tzinfo=None) if tz is None else d.astimezone(tz)


def notations(c, ms, us):
    """A text for an instant as other programs write it."""
    off = c.pick("plan", [0, 60, -60, 330, -570, 840, -720, 1, -1, 59])
    d = model.EPOCH + dt.timedelta(milliseconds=ms) + dt.timedelta(minutes=off)
    s = "%04d-%02d-%02dT%02d:%02d:%02d" % (d.year, d.month, d.day, d.hour, d.minute, d.second)
    k = c.draw("plan", 5)
    frac = "%03d%03d" % (ms % 1000, us)
    if k == 0 and ms % 1000 == 0 and us == 0:
        pass
    elif k == 1 and us == 0 and ms % 100 == 0:
        s += "." + frac[:1]
    elif k == 2 or us:
        s += "." + frac
    else:
        s += "." + frac[:3]
    if off == 0:
        return s + c.pick("plan", ["Z", "+00:00", "-00:00", ""])
    return s + "%s%02d:%02d" % ("+" if off > 0 else "-", abs(off) // 60, abs(off) % 60)


class Host:
    """What the program holds: events whose timestamps stand for known instants."""

    def __init__(self, ctx):
        from opyenxes.factory.XFactory import XFactory
        self.ctx = ctx
        self.f = XFactory
        self.trace = self.f.create_trace()
        self.want = []              # (ms, extra µs) per event of the trace
        self.script = []
        self.how = []
        self.n = 0

    def bad(self, got, want):
        """got in ms; exact for whole milliseconds, else the two neighbours."""
        ms, us = want
        return got not in ((ms,) if us == 0 else (ms, ms + 1))

    def instant(self, d, i):
        if d.tzinfo is None and NO_ZONE in self.how[i]:
            d = d.replace(tzinfo=dt.timezone.utc)
        return model.instant_ms(d)

    def check(self, i, what):
        """The timestamp of event i as both the date and the milliseconds."""
        a = self.trace[i].get_attributes()["time:timestamp"]
        self.check_attr(a, self.want[i], what, i)

    def check_attr(self, a, want, what, i):
        d = a.get_value()
        zone = os.environ["TZ"]
        given = self.how[i]
        got = self.instant(d, i)
        self.ctx.check(not self.bad(got, want), "instant", lambda: "%s (%s), host zone %s: the date is %r, that is %s, not %s" % (
            what, given, zone, d, got, want))
        got = a.get_value_millis()
        self.ctx.check(not self.bad(got, want), "millis", lambda: "%s (%s), host zone %s: get_value_millis() is %r, not %s" % (
            what, given, zone, got, want))

    def add(self):
        from opyenxes.extension.std.XTimeExtension import XTimeExtension
        c, f = self.ctx.c, self.f
        ms, us = draw_instant(c)
        if self.want and c.draw("plan", 4) == 3:        # close to another one
            ms, us = c.pick("plan", self.want)
            ms += c.pick("plan", [0, 0, 1, -1])
            us = min(us, 999)
        tz, name = draw_zone(c)
        e = f.create_event()
        k = c.draw("plan", 7)
        if k in (3, 4, 5):
            us = 0
        date = make_date(ms, us, tz)
        if k == 0:
            e.get_attributes()["time:timestamp"] = f.create_attribute_timestamp("time:timestamp", date, XTimeExtension())
        elif k == 1:
            XTimeExtension().assign_timestamp(e, date)
        elif k == 2:
            a = f.create_attribute_timestamp("time:timestamp", 0, None)
            a.set_value(date)
            e.get_attributes()["time:timestamp"] = a
        elif k == 3:
            e.get_attributes()["time:timestamp"] = f.create_attribute_timestamp("time:timestamp", ms, None)
        elif k == 4:
            XTimeExtension().assign_timestamp(e, ms)
        elif k == 5:
            a = f.create_attribute_timestamp("time:timestamp", date, None)
            a.set_value_millis(ms)
            e.get_attributes()["time:timestamp"] = a
        else:
            from opyenxes.utils.XsDateTimeConversion import parse_date_time
            text = notations(c, ms, us)
            d = parse_date_time(text)
            self.ctx.check(d is not None, "unreadable", lambda: "cannot read the date %r" % text)
            e.get_attributes()["time:timestamp"] = f.create_attribute_timestamp("time:timestamp", d, None)
            name = "text " + text
        self.how.append("given as %s" % (name if k in (0, 1, 2, 6) else "milliseconds"))
        self.trace.append(e)
        self.want.append((ms, us))
        self.ctx.log("add", k, ms, us, name)
        self.check(len(self.want) - 1, "just stored in way %d" % k)
        return "add %d" % k

    def step(self, op, path):
        from opyenxes.extension.std.XTimeExtension import XTimeExtension
        ctx, c, f = self.ctx, self.ctx.c, self.f
        ctx.ops += 1
        i = c.draw("plan", len(self.want))
        e = self.trace[i]
        a = e.get_attributes()["time:timestamp"]
        if op == "read":
            d = XTimeExtension().extract_timestamp(e)
            ctx.check(not self.bad(self.instant(d, i), self.want[i]), "instant", lambda: "extract_timestamp gives %r, not %s" % (
                d, self.want[i]))
        elif op == "clone event":
            self.trace[i] = e.clone()
        elif op == "clone trace":
            self.trace = self.trace.clone()
        elif op == "clone attribute":
            e.get_attributes()["time:timestamp"] = a.clone()
        elif op == "copy date":
            n = f.create_event()
            XTimeExtension().assign_timestamp(n, XTimeExtension().extract_timestamp(e))
            self.trace[i] = n
        elif op == "copy millis":
            n = f.create_event()
            XTimeExtension().assign_timestamp(n, a.get_value_millis())
            self.want[i] = (self.want[i][0], 0) if not self.want[i][1] else (a.get_value_millis(), 0)
            self.trace[i] = n
        elif op == "wrapped":
            from opyenxes.extension.std.XExtendedEvent import XExtendedEvent
            n = f.create_event()
            XExtendedEvent.wrap(n).set_time_stamp(XExtendedEvent.wrap(e).clone().get_time_stamp())
            self.trace[i] = n
        elif op == "text":
            from opyenxes.utils.XsDateTimeConversion import parse_date_time
            text = str(a)
            d = parse_date_time(text)
            ctx.check(d is not None, "unreadable", lambda: "cannot read the library's own date %r" % text)
            e.get_attributes()["time:timestamp"] = f.create_attribute_timestamp("time:timestamp", d, None)
            self.floored(i)
        elif op == "compare":
            j = c.draw("plan", len(self.want))
            b = self.trace[j].get_attributes()["time:timestamp"]
            x, y = self.want[i], self.want[j]
            # in zones with a changing offset Python compares by its own rules
            if all(z is None or isinstance(z, dt.timezone) for z in (a.get_value().tzinfo, b.get_value().tzinfo)) and (
                    x[1] == y[1] == 0 or abs(x[0] - y[0]) > 1):
                want = (x > y) - (x < y)
                got = [a < b, a <= b, a == b, a != b, a >= b, a > b, (a.compare_to(b) > 0) - (a.compare_to(b) < 0)]
                ctx.check(got == [want < 0, want <= 0, want == 0, want != 0, want >= 0, want > 0, want], "order",
                          lambda: "%r and %r, %s ms apart, compare as %r" % (a.get_value(), b.get_value(), x[0] - y[0], got))
        elif op == "prototype":
            from opyenxes.utils.XAttributeUtils import XAttributeUtils
            p = XAttributeUtils.derive_prototype(a)
            p.set_value(a.get_value())
            e.get_attributes()["time:timestamp"] = p
        else:
            self.save(path)
            self.load(path)
        for k in range(len(self.want)):
            self.check(k, "after %s" % op)

    def floored(self, i):
        """The text form has milliseconds; which neighbour an instant between two becomes is not specified."""
        if self.want[i][1]:
            self.want[i] = (self.trace[i].get_attributes()["time:timestamp"].get_value_millis()
                            if not self.bad(self.trace[i].get_attributes()["time:timestamp"].get_value_millis(), self.want[i])
                            else self.want[i][0], 0)

    def save(self, path):
        log = self.f.create_log()
        log.append(self.trace)
        common.write_log(self.ctx, common.tools("xes.gz" if path.endswith("gz") else "xes")[0], log, path)

    def load(self, path):
        log = common.read_log(common.tools("xes.gz" if path.endswith("gz") else "xes")[1](), path)[0]
        self.ctx.check(len(log) == 1 and len(log[0]) == len(self.want), "events", "events lost")
        self.trace = log[0]
        for i in range(len(self.want)):
            self.ctx.check("time:timestamp" in self.trace[i].get_attributes(), "events", "a timestamp is lost")
            self.floored(i)


OPS = ["read", "clone event", "clone trace", "clone attribute", "copy date", "copy millis", "text", "prototype", "wrapped", "compare", "compare", "xes", "xes"]


def disturb(ctx):
    """The host changes its zone or clock."""
    c = ctx.c
    if c.draw("fault", 2):
        set_zone(ctx, c.pick("fault", HOSTS + NAMED))
    k = c.pick("fault", [0, 0, 1, 2, 3, 4, 5])
    if CLOCKS[k]:
        ctx.clock.step(CLOCKS[k] * 1_000_000)
        ctx.fired("clock:step")


def run(ctx):
    c = ctx.c
    fs = common.new_fs(ctx)
    path = fs.p("log.xes" if c.draw("plan", 4) else "log.xes.gz")
    if c.draw("fault", 4):
        set_zone(ctx, c.pick("fault", HOSTS))
    if ctx.config == "threads":
        return threads(ctx)
    if ctx.config == "restart":
        return restart(ctx, path)
    h = Host(ctx)
    ops = []
    for _ in range(1 + c.draw("plan", 4)):
        disturb(ctx)
        ops.append((h.add(), os.environ["TZ"]))
    for _ in range(2 + c.draw("plan", 10)):
        disturb(ctx)
        op = c.pick("plan", OPS)
        h.step(op, path)
        ctx.log(op)
        ops.append((op, os.environ["TZ"]))
        ctx.probe("op:" + op)
    ctx.state(ops)
    ctx.sample = "host: %s" % (ops,)
    ctx.nontrivial = bool(ctx.faults)


def restart(ctx, path):
    """Each process reads what the last one wrote, on a host with another zone and clock."""
    state = [None]
    shape = []

    def process(k):
        def f():
            h = Host(ctx)
            if state[0] is not None:
                h.want, h.how = list(state[0][0]), list(state[0][1])
                h.load(path)
                for i in range(len(h.want)):
                    h.check(i, "read by process %d" % k)
            ops = []
            for _ in range(1 + ctx.c.draw("plan", 2) if len(h.want) < 4 else 0):
                ops.append(h.add())
                if ctx.c.draw("fault", 2):
                    disturb(ctx)
            for _ in range(ctx.c.draw("plan", 3)):
                op = ctx.c.pick("plan", OPS)
                h.step(op, path)
                ops.append(op)
            disturb(ctx)
            h.save(path)
            return h.want, h.how, ops, os.environ["TZ"]
        return f
    for k in range(2 + ctx.c.draw("plan", 2)):
        _, (want, how, ops, zone) = lives.life(ctx, process(k), "process %d" % k)
        state[0] = (want, how)
        shape.append((os.environ["TZ"], zone, ops))
        set_zone(ctx, ctx.c.pick("fault", HOSTS))
        ctx.clock.step(ctx.c.pick("fault", CLOCKS) * 1_000_000)
    ctx.state(shape)
    ctx.sample = "restart: %s" % (shape,)
    ctx.nontrivial = bool(ctx.faults)


def threads(ctx):
    """Another thread changes the host's zone while 1-3 threads work."""
    c = ctx.c
    n = 1 + c.draw("plan", 3)
    hosts = [Host(ctx) for _ in range(n)]
    plans = [[c.pick("plan", OPS) for _ in range(1 + c.draw("plan", 4))] for _ in range(n)]
    adds = [1 + c.draw("plan", 2) for _ in range(n)]

    def body(k):
        def f():
            for _ in range(adds[k]):
                hosts[k].add()
            for op in plans[k]:
                hosts[k].step(op, ctx.fs.p("t%d.xes" % k))
                ctx.log(k, op)
        return f

    def operator():
        for _ in range(6):
            ctx.sched.point("operator", 0.9)
            disturb(ctx)
    s = Scheduler(ctx)
    for k in range(n):
        s.spawn("t%d" % k, body(k))
    s.spawn("operator", operator)
    s.run()
    for t in s.tasks:
        if t.exc is not None:
            raise t.exc
    for h in hosts:
        for i in range(len(h.want)):
            h.check(i, "at the end")
    ctx.sample = "threads: %s" % (plans,)
    ctx.nontrivial = s.switches > 0
