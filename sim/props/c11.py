"""C11: ordered insertion keeps a trace in time order for every arrival order."""
import datetime as dt

from .. import common, model

ID = "C11"
CONFIGS = [("network", 4), ("restart", 2), ("untimed", 1), ("bulk", 1)]
RUNS = {"quick": 4000, "thorough": 80000}
RULE = ("one case = 1-4 simulated sources with skewed clocks sending events of 1-3 cases over links that delay, reorder, "
        "duplicate and redeliver, to a collector that inserts each arrival in time order and in some runs is stopped, saved as "
        "XES and reloaded in between, or that continues a long trace; after every insertion "
        "the trace is compared with a reference list; non-trivial = at least one event arrived out of time order or twice; distinct = different event log")
STATE_MEASURE = "hash of the order in which timestamps arrived at a trace (rank pattern)"
REAL = common.REAL
STUB = ["sources, links and their faults", "source clocks", "raw file layer (restart configuration)", "entropy source"]
ASSUMPTIONS = common.BASE_ASSUMPTIONS + ["timestamps have fixed UTC offsets or no zone, which means UTC",
                                         "while a trace holds events without a timestamp only conservation, position and the "
                                         "order of the other events are claimed"]


def key_of(e):
    a = e.get_attributes().get("sim:label")
    return a.get_value() if a is not None else None


def run(ctx):
    from opyenxes.factory.XFactory import XFactory
    c = ctx.c
    cfg = ctx.config
    f = XFactory
    n_src = 1 + c.draw("plan", 4)
    n_case = 1 + c.draw("plan", 3)
    grain = c.pick("plan", [1000, 1, 60_000])              # ms between distinct times: coarse gives ties
    micro = cfg in ("network", "bulk") and c.draw("plan", 8) == 7
    base = c.pick("plan", [1_400_000_000_000, 0, -86_400_000 * 365 * 30, 253_000_000_000_000])
    count = (3 + c.draw("plan", 10)) if cfg != "bulk" else 30 + c.draw("plan", 90)
    queue = []                  # (arrival, seq, case, instant µs or None, offset, label)
    seq = 0
    arrived, first_of = {}, {}      # label of the first copy -> (how the others arrive, the event); label -> that of the first
    for s in range(n_src):
        skew = c.draw("fault", 21) - 10 if c.draw("fault", 2) else 0
        if skew:
            ctx.fired("clock:skew")
        t = 0
        for i in range(count // n_src + 1):
            t += c.draw("plan", 4)
            case = c.draw("plan", n_case)
            local = base + (t + skew) * grain
            instant = local * 1000 + (c.draw("plan", 1000) if micro else 0)
            if cfg == "untimed" and c.draw("plan", 4) == 3:
                instant = None
            off = c.pick("plan", [0, 0, 60, -300, 330, 14 * 60, -719, 1, None])
            delay = (0, 1, 5, 40)[c.draw("fault", 4)]
            if delay:
                ctx.fired("link:delay")
            copies = 1
            if c.chance("fault", 0.1):
                copies = 2 + c.draw("fault", 2)
                ctx.fired("link:duplicate")
            for k in range(copies):
                late = delay + (c.draw("fault", 30) if k else 0)
                queue.append((t + late, c.draw("fault", 8) if c.draw("fault", 2) else 0, seq, case, instant, off,
                              "s%d.%d" % (s, i)))
                if k == 0:
                    again = c.draw("fault", 3)      # copies arrive as new events, as equal ones or as the same object
                    first = "%s#%d" % ("s%d.%d" % (s, i), seq)
                    arrived[first] = (again, None)
                else:
                    first_of["%s#%d" % ("s%d.%d" % (s, i), seq)] = first
                seq += 1
    queue.sort(key=lambda m: m[:3])
    log = f.create_log()
    for k in range(n_case):
        log.append(f.create_trace())
    want = [[] for _ in range(n_case)]          # (instant, label)
    fs = None
    disorder = 0
    arrivals = [[] for _ in range(n_case)]
    if cfg == "bulk" and c.draw("plan", 3) == 2:       # the collector continues a long trace that is in order
        span = 8 * count
        ticks = sorted(c.draw("plan", span) - span // 2 for _ in range(c.pick("plan", [150, 300, 700, 1300])))
        for i, t in enumerate(ticks):
            instant = (base + t * grain) * 1000
            e = f.create_event()
            e.get_attributes()["sim:label"] = f.create_attribute_literal("sim:label", "old#%d" % i, None)
            e.get_attributes()["time:timestamp"] = f.create_attribute_timestamp(
                "time:timestamp", model.EPOCH + dt.timedelta(microseconds=instant), None)
            log[0].append(e)
            want[0].append((instant, "old#%d" % i))
        ctx.probe("long-trace")
    ctx.sample = "%s: %d sources, %d cases, %d arrivals, grain %d ms" % (cfg, n_src, n_case, len(queue), grain)
    for n, (_, _, sq, case, instant, off, label) in enumerate(queue):
        label = "%s#%d" % (label, sq)
        trace = log[case]
        e = f.create_event()
        e.get_attributes()["sim:label"] = f.create_attribute_literal("sim:label", label, None)
        if instant is not None:
            tz = dt.timezone(dt.timedelta(minutes=off or 0))
            when = (model.EPOCH + dt.timedelta(microseconds=instant)).astimezone(tz) if abs(instant) < 253_402_000_000_000_000 else \
                (model.EPOCH + dt.timedelta(microseconds=instant))
            if off is None:             # a date without a zone is one of UTC
                when = when.replace(tzinfo=None)
                ctx.probe("no-zone")
            if off == 0 and instant % 1000 == 0 and c.draw("plan", 2):
                a = f.create_attribute_timestamp("time:timestamp", instant // 1000, None)
            else:
                a = f.create_attribute_timestamp("time:timestamp", when, None)
            e.get_attributes()["time:timestamp"] = a
        group = first_of.get(label, label)
        again, older = arrived[group]
        if older is None:
            arrived[group] = (again, e)
        elif again == 1:
            e.set_id(older.get_id())
            ctx.probe("equal-event")
        elif again == 2 and cfg != "restart" and any(x is older for x in trace):
            e = older
            label = key_of(e)
            ctx.probe("same-object")
        ident = e.get_id()
        before = list(trace)
        held = sum(1 for x in before if x is e)
        pos = trace.insert_ordered(e)
        ctx.ops += 1
        ref = want[case]
        timed = all(x[0] is not None for x in ref)
        after = list(trace)
        ctx.check(len(after) == len(before) + 1 and sum(1 for x in after if x is e) == held + 1, "conservation",
                  lambda: "inserting one event turned %d events into %d" % (len(before), len(after)))
        ctx.check(isinstance(pos, int) and 0 <= pos < len(after) and after[pos] is e, "position",
                  lambda: "insert_ordered returned %r, but the event stands at %r" % (pos, [i for i, x in enumerate(after) if x is e]))
        rest = after[:pos] + after[pos + 1:]
        ctx.check(all(x is y for x, y in zip(rest, before)) and len(rest) == len(before), "reordered",
                  "the insertion changed the order of other events")
        ctx.check(e.get_id() == ident, "identity", "insertion changed the id of the event")
        if instant is None:
            ctx.check(pos == len(after) - 1, "untimed-not-last", lambda: "an event without a timestamp was put at %d of %d" % (pos, len(after)))
            ref.append((None, label))
        elif timed:
            at = sum(1 for x in ref if x[0] <= instant)
            ctx.check(pos == at, "order", lambda: "event at %d put at position %d instead of %d; timestamps then %r" % (
                instant, pos, at, [x[0] for x in ref][max(0, at - 3):at + 3]))
            if at < len(ref):
                disorder += 1
            ref.insert(at, (instant, label))
        else:
            ref.insert(pos, (instant, label))
        arrivals[case].append(instant)
        ctx.log(case, pos, label)
        if cfg == "restart" and c.chance("fault", 0.15):
            # the collector stops; a new one continues from what was saved
            if fs is None:
                fs = common.new_fs(ctx)
                fs.active = True
                fs.short_reads = fs.short_writes = (0.0, 0.5)[c.draw("plan", 2)]
            kind = c.pick("plan", ["xes", "xes.gz"])
            ser, pc = common.tools(kind)
            common.write_log(ctx, ser, log, fs.p("state." + kind))
            log = common.read_log(pc(), fs.p("state." + kind))[0]
            ctx.fired("collector:restart")
    for case in range(n_case):
        got = [key_of(e) for e in log[case]]
        exp = [x[1] for x in want[case]]
        ctx.check(got == exp, "final-order", lambda: "trace %d ends up as %r instead of %r" % (case, got[:20], exp[:20]))
        times = [x for x in arrivals[case] if x is not None]
        rank = {x: i for i, x in enumerate(sorted(set(times)))}
        ctx.state([rank.get(x) for x in arrivals[case]])
    ctx.nontrivial = disorder > 0 or "link:duplicate" in ctx.faults
