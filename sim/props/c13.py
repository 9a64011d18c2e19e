"""C13: every generated id is unique, across threads, forks, restarts and clocks."""
import random
import uuid

from .. import common, lives, model
from ..sched import Scheduler

ID = "C13"
CONFIGS = [("threads", 2), ("processes", 3), ("bytecode", 1)]
RUNS = {"quick": 1800, "thorough": 60000}
RULE = ("one case = 1-5 simulated processes, one after another or forked off one another while both go on, each with 1-4 threads "
        "that create 3-20 ids on request, by creating events (directly, through the factory), by cloning events, traces and logs, by "
        "deriving prototypes and by parsing XES and MXML files, while the program reseeds its random generator, the clock stands "
        "still or jumps back and the entropy source fails once; all ids of all processes are collected and compared; non-trivial "
        "= more than one thread or process, or a fault; distinct = different event log")
STATE_MEASURE = "hash of the process tree with the kinds of creation in each process, or of the context switches"
REAL = common.REAL + ["uuid and random modules of CPython"]
STUB = ["thread scheduler", "library locks (simulated)", "process ids, fork and restart (simulated processes)", "clock", "kernel entropy source"]
ASSUMPTIONS = common.BASE_ASSUMPTIONS + [common.THREAD_ASSUMPTION, "the kernel's entropy source gives every process fresh bytes, "
                                         "also after a fork"]
KINDS = ["create_id", "factory-event", "event", "XID", "clone-event", "clone-trace", "clone-log", "parse-xes", "parse-mxml",
         "prototype", "instance-create", "wrapped", "create-for-attributes", "given"]


class Maker:
    """The program in one simulated process."""

    def __init__(self, ctx, files, known, events):
        self.ctx = ctx
        self.files = files
        self.known = known          # ids made in this process (or before a fork): [(id text, how)]
        self.events = events        # [(event, its id at birth)]

    def note(self, xid, how):
        from opyenxes.id.XID import XID
        text = str(xid)
        self.ctx.check(isinstance(xid, XID) and len(text) == 36, "no-id", lambda: "%s gave %r" % (how, xid))
        self.ctx.check(XID.parse(text) == xid and hash(XID.parse(text)) == hash(xid), "id-text",
                       lambda: "the text of an id, %s, denotes another id" % text)
        self.known.append((xid.get_uuid().hex, how))

    def note_event(self, e, how):
        self.note(e.get_id(), how)
        self.events.append((e, e.get_id().get_uuid().hex))

    def make(self, kind, me):
        from opyenxes.factory.XFactory import XFactory
        from opyenxes.id.XID import XID
        from opyenxes.id.XIDFactory import XIDFactory
        from opyenxes.model.XAttributeMap import XAttributeMap
        from opyenxes.model.XEvent import XEvent
        ctx, f = self.ctx, XFactory
        how = "%s (%s)" % (kind, me)
        if kind == "create_id":
            self.note(XIDFactory.create_id(), how)
        elif kind == "instance-create":
            self.note(XIDFactory().create_id(), how)
        elif kind == "XID":
            self.note(XID(), how)
        elif kind == "event":
            self.note_event(XEvent(), how)
        elif kind == "factory-event":
            self.note_event(f.create_event(), how)
        elif kind == "create-for-attributes":
            m = XAttributeMap({"k": f.create_attribute_literal("k", "v", None)})
            self.note_event(f.create_event(m), how)
        elif kind == "wrapped":
            from opyenxes.extension.std.XExtendedEvent import XExtendedEvent
            e = f.create_event()
            self.note_event(e, how)
            w = XExtendedEvent.wrap(e)
            x = w.clone()
            self.note_event(w, how)
            self.note_event(x, how)
        elif kind == "given":       # events whose ids the program chose, each close to the one before
            at = ctx.c.draw("plan", 1 << 62) | ctx.c.draw("plan", 1 << 62) << 66
            at = ctx.c.pick("plan", [at, at, at >> 64, at >> 64 << 64, at >> 80])
            for _ in range(2):
                e = f.create_event(None, XID(uuid.UUID(int=at)))
                ctx.check(e.get_id().get_uuid().int == at, "id-changed", lambda: "an event created for the id %032x has the id %s" % (at, e.get_id()))
                self.events.append((e, e.get_id().get_uuid().hex))
                step = ctx.c.pick("plan", [1 << ctx.c.draw("plan", 128), (1 << 61) - 1, (1 << 64) - 1, (1 << 64) + 1])
                at = (at ^ step if step & (step - 1) == 0 else at + step) % (1 << 128)
        elif kind == "prototype":
            from opyenxes.utils.XAttributeUtils import XAttributeUtils
            a = f.create_attribute_id("i", XID(), None)
            self.note(a.get_value(), how)
            self.note(XAttributeUtils.derive_prototype(a).get_value(), how)
        elif kind.startswith("clone"):
            log, trace = f.create_log(), f.create_trace()
            for _ in range(1 + ctx.c.draw("plan", 3)):
                e = f.create_event()
                self.note_event(e, how)
                trace.append(e)
            log.append(trace)
            if kind == "clone-event":
                self.note_event(trace[0].clone(), how)
            elif kind == "clone-trace":
                for e in trace.clone():
                    self.note_event(e, how)
            else:
                for e in log.clone()[0]:
                    self.note_event(e, how)
        else:
            fmt = "xes" if kind == "parse-xes" else "mxml"
            logs = common.read_log(common.tools(fmt)[1](), self.files[fmt])
            for log in logs:
                for t in log:
                    for e in t:
                        self.note_event(e, how)

    def finish(self):
        """No event changed its id, no two compare equal."""
        ctx = self.ctx
        for e, was in self.events:
            ctx.check(e.get_id().get_uuid().hex == was, "id-changed", "an event's id changed from %s to %s" % (was, e.get_id()))
        if len(self.events) <= 40:
            for i, (a, x) in enumerate(self.events):
                for b, y in self.events[:i]:
                    ctx.check(not (a == b) and a != b, "equal-events", "two different events compare equal (ids %s, %s)" % (x, y))
        ctx.check(len({e for e, _ in self.events}) == len(self.events), "equal-events", "a set loses events")


def work(ctx, maker, name, plan, switches):
    """One stretch of work of a process: 1-4 threads."""
    def body(me, ops):
        def run():
            for kind, seed, jump, fail in ops:
                if seed is not None:
                    random.seed(seed)
                    ctx.probe("reseeded")
                if jump:
                    ctx.clock.step(-jump)
                    ctx.fired("clock:back")
                try:
                    maker.make(kind, me)
                except Exception as e:
                    if "simulated entropy" not in repr(e) + repr(e.__cause__) + repr(e.__context__):
                        raise
                    ctx.probe("entropy error reached the caller")
                ctx.log(me, kind)
                ctx.probe("made:" + kind)
                ctx.ops += 1
        return run
    if len(plan) == 1:
        body(name, plan[0])()
        return
    s = Scheduler(ctx)
    for i, ops in enumerate(plan):
        s.spawn("%s.t%d" % (name, i), body("%s.t%d" % (name, i), ops))
    s.run()
    for t in s.tasks:
        if t.exc is not None:
            raise t.exc
    switches.append(s.switches)


def plan_work(ctx, most_threads, most_ops):
    c = ctx.c
    out = []
    for _ in range(1 + c.draw("plan", most_threads)):
        ops = []
        for _ in range(1 + c.draw("plan", most_ops)):
            ops.append((c.pick("plan", KINDS), c.draw("fault", 3) if c.chance("fault", 0.15) else None,
                        c.pick("fault", [0, 0, 0, 1000, 3_600_000_000]), False))
        out.append(ops)
    return out


def check_unique(ctx, ids):
    seen = {}
    for x, how in ids:
        ctx.check(x not in seen, "duplicate", lambda: "id %s was made twice: by %s and by %s" % (x, seen[x], how))
        seen[x] = how


def run(ctx):
    c = ctx.c
    fs = common.new_fs(ctx)
    if ctx.config == "bytecode":
        from .. import sched
        sched.use_instructions()
    ctx.clock.tick = c.pick("fault", [0, 0, 1])
    files = {}
    for fmt in ("xes", "mxml"):
        g = model.Gen(c, rich=0.1)
        spec = {"attrs": (), "traces": [{"attrs": (), "events": [{"attrs": (("string", "concept:name", g.plain(), ()),)}
                                                                 for _ in range(1 + g.d(3))]}]}
        if fmt == "mxml":
            spec["attrs"] = spec["traces"][0]["attrs"] = (("string", "concept:name", "p", ()),)
        files[fmt] = fs.put("in." + fmt, (model.mxml_text(spec) if fmt == "mxml" else model.xes_text(spec)).encode())
    if ctx.config != "processes":
        m = Maker(ctx, files, [], [])
        switches = []
        ctx.urandom.fail_in = c.draw("fault", 12) if c.draw("fault", 5) == 4 else 0
        plan = plan_work(ctx, 3, 6) + plan_work(ctx, 1, 6)
        work(ctx, m, "p", plan, switches)
        m.finish()
        check_unique(ctx, m.known)
        ctx.nontrivial = sum(switches) > 0
        ctx.sample = "%d threads: %s" % (len(plan), [[o[0] for o in ops] for ops in plan])
        return
    every, tree = [], []

    def process(name, depth, inherited):
        """Runs inside a life; returns (new ids, shape)."""
        def f():
            ctx.urandom.fail_in = ctx.c.draw("fault", 12) if ctx.c.draw("fault", 6) == 5 else 0
            m = inherited if inherited is not None else Maker(ctx, files, [], [])
            start = len(m.known)
            shape = []
            for k in range(1 + ctx.c.draw("plan", 3)):
                plan = plan_work(ctx, 2 if ctx.c.draw("plan", 4) == 3 else 1, 4)
                work(ctx, m, name, plan, [])
                shape.append([[o[0] for o in ops] for ops in plan])
                if depth < 2 and ctx.c.draw("plan", 2):
                    child = "%s/%d" % (name, k)
                    ctx.probe("fork")
                    _, (ids, sub) = lives.life(ctx, process(child, depth + 1, m), child, fork=True)
                    m.known.extend(ids)
                    shape.append(["fork", sub])
            m.finish()
            return m.known[start:], shape
        return f
    for p in range(1 + c.draw("plan", 3)):
        _, (ids, shape) = lives.life(ctx, process("p%d" % p, 0, None), "p%d" % p)
        every += ids
        tree.append(shape)
        if ctx.c.draw("fault", 3) == 2:
            ctx.clock.step(-ctx.c.pick("fault", [1, 1_000_000, 86_400_000_000]))
            ctx.fired("clock:back")
    check_unique(ctx, every)
    ctx.sample = "processes: %s" % (tree,)
    ctx.state(tree)
    ctx.nontrivial = len(tree) > 1 or ctx.probes.get("fork", 0) > 0
