"""C21: what a standard extension assigns to an element is what it extracts from it."""
import uuid
from urllib.parse import urlparse

from .. import common, model
from ..sched import Scheduler

ID = "C21"
CONFIGS = [("history", 4), ("interrupted", 3), ("threads", 2), ("contended", 4), ("bytecode", 1), ("stored", 2)]
RUNS = {"quick": 2400, "thorough": 80000}
RULE = ("one case = 4-30 requests to the accessors of the eight standard extensions and of the extended event (assigning, assigning "
        "nothing, removing, nested costs, cloning, adopting attribute maps) on 2-8 logs, traces, events and attributes, in one thread, "
        "in 2-4 threads working on elements of their own and reading common ones (in 'contended' all with the same one or two accessors), "
        "or with requests interrupted at a drawn line and "
        "made again; after each request every accessor of every element is compared with a table of what was assigned; in 'stored' "
        "the log is then written and read back through short transfers and compared again; non-trivial = an element holds values of "
        "two accessors and another element differs from it; distinct = different event log")
STATE_MEASURE = "hash of the kinds of requests made, in order, and of the interruptions"
REAL = ["opyenxes.extension.std", "opyenxes.model", "opyenxes.factory", "opyenxes.data_out, opyenxes.data_in (configuration stored)"]
STUB = ["thread scheduler", "library locks (simulated)", "asynchronous exceptions", "raw file layer", "clock", "entropy source"]
ASSUMPTIONS = common.BASE_ASSUMPTIONS + [
    common.THREAD_ASSUMPTION,
    "an element is changed by one thread at a time", "nothing is promised of an element while a change of it is under way or was interrupted, until the "
    "change is made again", "amounts, totals and levels assigned by an accessor are positive, lengths not negative, texts not blank and, for transitions, "
    "models and extended events, have no white space at their ends"]
STANDARD = ["schedule", "assign", "withdraw", "reassign", "start", "suspend", "resume", "pi_abort", "ate_abort", "complete", "autoskip",
            "manualskip"]


def ext(name):
    import importlib
    cls = "X%sExtension" % name
    return getattr(importlib.import_module("opyenxes.extension.std." + cls), cls)()


def hexid(x):
    return None if x is None else x.get_uuid().hex


def uris(xs):
    return [x.geturl() for x in xs]


# accessor: levels it is used on, key, kind of value, extension, suffix of its methods
ACC = {
    "name": ("log trace event", "concept:name", "text", "Concept", "name"),
    "instance": ("event", "concept:instance", "text", "Concept", "instance"),
    "timestamp": ("event", "time:timestamp", "date", "Time", "timestamp"),
    "resource": ("event", "org:resource", "text", "Organizational", "resource"),
    "role": ("event", "org:role", "text", "Organizational", "role"),
    "group": ("event", "org:group", "text", "Organizational", "group"),
    "model": ("log", "lifecycle:model", "trimmed", "Lifecycle", "model"),
    "transition": ("event", "lifecycle:transition", "trimmed", "Lifecycle", "transition"),
    "id": ("log trace event attr", "identity:id", "id", "Identity", "id"),
    "total": ("trace event", "cost:total", "amount", "Cost", "total"),
    "currency": ("trace event", "cost:currency", "text", "Cost", "currency"),
    "amount": ("attr", "cost:amount", "amount", "Cost", "amount"),
    "driver": ("attr", "cost:driver", "text", "Cost", "driver"),
    "type": ("attr", "cost:type", "text", "Cost", "type"),
    "level": ("event", "micro:level", "level", "Micro", "level"),
    "parent": ("event", "micro:parentId", "id", "Micro", "parent_id"),
    "length": ("event", "micro:length", "length", "Micro", "length"),
    "references": ("log trace event attr", "semantic:modelReference", "refs", "Semantic", "model_references"),
}
OF = {level: [a for a, x in ACC.items() if level in x[0].split()] for level in ("log", "trace", "event", "attr")}
ABSENT = {"level": -1, "length": -1, "references": []}
EXTENDED = {"name": "name", "instance": "instance", "timestamp": "time_stamp", "resource": "resource", "role": "role", "group": "group",
            "transition": "transition", "references": "model_references"}
EXTENDED_GET = {"resource": "get_resourse"}
NESTED = ["amount", "driver", "type"]
NEARLY = ["pi-abort", "ate abort", "completed", "comp", "START", "autoskip!", "un known", "Complete ", "", "suspend;resume"]
KEYS = ["a", "b", "c", "a b", "k:x"]


def accessor(a, what):
    return getattr(ext(ACC[a][3]), what + "_" + ACC[a][4])


def seen(a, got):
    """What extract returned, as the plain value of the table."""
    if ACC[a][2] == "id":
        return hexid(got)
    if ACC[a][2] == "date":
        return model.instant_ms(got) if hasattr(got, "tzinfo") else got
    return got


class Node:
    """An element and what was assigned to it."""

    def __init__(self, level, real):
        self.level, self.real = level, real
        self.values, self.kids = {}, {}
        self.own = None             # of a child attribute: type, value and, when it was put there, the object
        self.of = None              # of a child attribute: prefix of its extension

    def copy(self, real):
        n = Node(self.level, real)
        n.values = dict(self.values)
        n.own = self.own and self.own[:2] + (None,)
        n.of = self.of
        for k, kid in self.kids.items():
            n.kids[k] = kid.copy(real.get_attributes().get(k) if real is not None else None)
        return n

    def kid(self, key):
        """The model of a child attribute, which the library creates when it is missing."""
        if key not in self.kids:
            self.kids[key] = Node("attr", None)
            self.kids[key].own = ("string", "", None)
        return self.kids[key]

    def settle(self):
        """Find the real objects of children the library created."""
        for k, kid in self.kids.items():
            kid.real = self.real.get_attributes().get(k)
            if kid.real is not None:
                kid.settle()

    def prefixes(self):
        out = {ACC[a][1].split(":")[0] for a in self.values}
        for kid in self.kids.values():
            out |= kid.prefixes()
            if kid.of:
                out.add(kid.of)
        return out

    def nested(self, a, path=()):
        out = {}
        for k, kid in self.kids.items():
            if a in kid.values:
                out[path + (k,)] = kid.values[a]
            out.update(kid.nested(a, path + (k,)))
        return out


class World:
    def __init__(self, ctx, tag=""):
        from opyenxes.factory.XFactory import XFactory
        self.ctx, self.F, self.tag = ctx, XFactory, tag
        self.g = model.Gen(ctx.c, rich=0.4)
        self.nodes = []
        self.used = {}
        self.few = set(self.pick(sorted(ACC)) for _ in range(2)) if self.d(3) == 2 else None    # accessors used most in this run
        self.handed = []            # lists and dictionaries handed out, and what they held

    def d(self, n):
        return self.ctx.c.draw("plan", n)

    def pick(self, xs):
        return self.ctx.c.pick("plan", xs)

    def choose(self, xs):
        some = [a for a in xs if a in self.few] if self.few and self.d(4) else []
        return self.pick(some or xs)

    # ---- elements ----
    def element(self, level):
        F = self.F
        if level != "attr":
            n = Node(level, getattr(F, "create_" + level)())
        else:
            n = Node(level, self.attribute("own"))
        self.nodes.append(n)
        return n

    def attribute(self, key, of=None):
        F = self.F
        return self.pick([lambda: F.create_attribute_literal(key, "v", of), lambda: F.create_attribute_discrete(key, 3, of),
                          lambda: F.create_attribute_boolean(key, True, of), lambda: F.create_attribute_continuous(key, 0.5, of),
                          lambda: F.create_attribute_literal(key, "", of)])()

    def populate(self):
        for level in self.pick([["event", "event"], ["event", "trace", "event"], ["event", "log", "trace", "event"], ["event", "attr", "attr", "event"],
                                ["trace", "trace", "attr"], ["event", "event", "event", "log", "attr", "trace"]]):
            self.element(level)

    # ---- values ----
    def value(self, a):
        """A new value or one used before."""
        old = self.used.setdefault(a, [])
        if not old or self.d(4) < (1 if self.few else 3):
            old.append(self.new_value(a))
            return old[-1]
        return self.pick(old)

    def new_value(self, a):
        kind = ACC[a][2]
        if kind in ("text", "trimmed"):
            t = self.g.text()
            t = t if t.strip() else "x" + t + "x"
            if kind == "trimmed":
                t = self.pick(STANDARD) if self.d(2) else t.strip() if self.d(2) else (self.pick(NEARLY).strip() or "x")
            return t
        if kind == "amount":
            return [1 + self.d(1000) / 8.0, (1 + self.d(1 << 40)) * 1e-7, float(1 + self.d(1 << 50)), (1 + self.d(999)) / 1000][self.d(4)]
        if kind == "id":
            return self.g.value("id")
        if kind == "date":
            return self.g.value("date") if self.d(5) else (self.pick([0, 1, -1, 999, 1000]), 0)
        if kind == "level":
            return 1 + self.d(5)
        if kind == "length":
            return self.d(5)
        return [self.pick(["http://sem.org/onto#Task", "http://sem.org/Onto#x", "urn:A:b", "http://x.y/z?q=%20&b", "Concept", "http://Sem.Org/T", "HTTP://x.y/T#", "http://x.y:80/a//b/../c?"]) + self.pick(["", "1", "B"])
                for _ in range(1 + self.d(3))]

    def given(self, a, v):
        """The value as a caller would pass it."""
        from opyenxes.id.XID import XID
        kind = ACC[a][2]
        if kind == "id":
            return XID(uuid.UUID(v))
        if kind == "date":
            return model.to_datetime(v)
        if kind == "refs":
            return list(v)
        return v

    # ---- requests: (name, apply to the library, update of the table) ----
    def request(self, n):
        ctx, d = self.ctx, self.d
        what = ctx.c.weighted("plan", [(16 if self.few else 8, "assign"), (2, "extended" if n.level == "event" else "assign"), (2, "nothing"),
                                       (3 if n.level in ("trace", "event") else 0, "nested"), (2 if n.level in ("trace", "event") else 0, "flat"),
                                       (2, "clone"), (1, "child"), (1 if n.level == "event" else 0, "remove"),
                                       (1 if n.level == "event" else 0, "standard"), (1, "uris"), (8 if self.few else 2, "stored"), (1 if n.level in ("event", "trace") else 0, "adopt")])
        if what == "assign":
            a = self.choose(OF[n.level])
            v = self.value(a)
            return self.assign(n, a, v, accessor, "assign " + a)
        if what == "extended":
            a = self.choose(sorted(EXTENDED))
            v = self.value(a)
            if a in ("resource", "role", "group"):
                v = v.strip()
            from opyenxes.extension.std.XExtendedEvent import XExtendedEvent
            w = XExtendedEvent.wrap(n.real)
            return self.assign(n, a, v, lambda a, _: getattr(w, "set_" + EXTENDED[a]), "set " + a)
        if what == "nothing":
            a = self.choose(OF[n.level])
            nothing = self.pick([None, "", "  "]) if ACC[a][2] in ("text", "trimmed") else self.pick([None, []]) if ACC[a][2] == "refs" else None
            change = {a: None} if a == "parent" else {}
            if n.level == "event" and a in EXTENDED and d(2):
                from opyenxes.extension.std.XExtendedEvent import XExtendedEvent
                w = XExtendedEvent.wrap(n.real)
                if a == "transition" and d(3) == 0:
                    return "set no standard transition", lambda: w.set_standard_transition(None), lambda: None
                if a == "references" and d(2):
                    return "set no uris", lambda: w.set_model_references_uris(nothing), lambda: None
                return "set no " + a, lambda: getattr(w, "set_" + EXTENDED[a])(nothing), lambda: None
            return "assign no " + a, lambda: accessor(a, "assign")(n.real, nothing), lambda: self.change(n, change)
        if what == "stored":                # a value set at the attribute the extension stored
            while n.kids and d(3):
                kid = n.kids[self.pick(sorted(n.kids))]
                if kid.real is None:
                    break
                n = kid
            have = sorted(a for a in n.values if ACC[a][2] != "refs")
            if not have:
                return "look", lambda: None, lambda: None
            a = self.choose(have)
            v = self.value(a)
            if d(4) == 0:       # there a value may be one that no accessor would assign
                v = {"amount": self.pick([0.0, -0.0, -2.5]), "level": self.pick([0, -1]), "length": self.pick([0, -7]), "text": self.pick(["", " "])}.get(ACC[a][2], v)
            return ("set at the attribute of " + a, lambda: n.real.get_attributes()[ACC[a][1]].set_value(self.given(a, v)),
                    lambda: self.change(n, {a: v[0] if ACC[a][2] == "date" else v}))
        if what == "remove":
            a = self.pick(["level", "parent", "length"])
            return "remove " + a, lambda: accessor(a, "remove")(n.real), lambda: self.change(n, {a: None})
        if what == "standard":
            t = self.pick(STANDARD + ["unknown", "other"] + NEARLY)
            say = self.pick([t, t.upper(), " " + t])
            t = t.strip().lower()
            return ("assign standard transition", lambda: ext("Lifecycle").assign_standard_transition(n.real, say),
                    lambda: self.change(n, {"transition": t if t in STANDARD else "unknown"}))
        if what == "uris":
            v = [x for x in self.value("references")]
            return ("assign uris", lambda: ext("Semantic").assign_model_reference_uris(n.real, [urlparse(x) for x in v]),
                    lambda: self.change(n, {"references": [urlparse(x).geturl() for x in v]}))
        if what in ("nested", "flat"):
            a = self.pick(NESTED)
            values = {}
            for _ in range(1 + d(3) if d(8) else 10 + d(30)):
                path = tuple(self.pick(KEYS[:3] if d(3) else KEYS) for _ in range(1 + (d((3, 3, 3, 6, 6, 16)[d(6)]) if what == "nested" else 0)))
                values[path] = self.value(a)

            def call():
                if what == "flat":
                    mine = {p[0]: v for p, v in values.items()}
                    getattr(ext("Cost"), "assign_%ss" % a)(n.real, mine)
                else:
                    mine = dict(values)
                    getattr(ext("Cost"), "assign_nested_%ss" % a)(n.real, mine)
                mine.clear()

            def table():
                for path, v in values.items():
                    at = n
                    for k in path:
                        at = at.kid(k)
                    at.values[a] = v
                n.settle()
            return "assign %s %ss" % (what, a), call, table
        if what == "child":
            key = self.pick(KEYS)
            if key in n.kids:
                return "look", lambda: None, lambda: None
            of = ext(self.pick(["Concept", "Cost", "Micro", "Time"])) if d(3) == 2 else None
            attr = self.attribute(key, of)

            def put():
                n.real.get_attributes()[key] = attr

            def table():
                kid = n.kid(key)
                kid.own = (model.type_of(attr), attr.get_value(), attr)
                kid.of = of and of.get_prefix()
                n.settle()
            return "add attribute", put, table
        if what == "clone":
            if n.level == "event" and d(2):
                from opyenxes.extension.std.XExtendedEvent import XExtendedEvent
                through = lambda: self.F.create_event(XExtendedEvent.wrap(n.real).clone().get_attributes())
                return "clone as an extended event", through, lambda x: self.keep(n.copy(x))
            return "clone", lambda: n.real.clone(), lambda x: self.keep(n.copy(x))
        real = self.F                       # adopt: another element made of a copy of the attributes

        def adopt():
            return getattr(real, "create_" + n.level)(n.real.get_attributes().clone())
        return "adopt", adopt, lambda x: self.keep(n.copy(x))

    def keep(self, n):
        self.ctx.check(n.real is not None and n.real.get_attributes() is not None, "clone", "a copy has no attributes")
        n.settle()
        if len(self.nodes) < 10:
            self.nodes.append(n)
        else:
            self.nodes[self.d(10)] = n

    def change(self, n, values):
        for a, v in values.items():
            if v is None:
                n.values.pop(a, None)
            else:
                n.values[a] = v

    def assign(self, n, a, v, find, name):
        millis = ACC[a][2] == "date" and self.d(3) == 0

        def call():
            x = v[0] if millis else self.given(a, v)
            find(a, "assign")(n.real, x) if find is accessor else find(a, "set")(x)
            if isinstance(x, list):
                x.clear()               # it belongs to the caller
        return name, call, lambda: self.change(n, {a: v[0] if ACC[a][2] == "date" else v})

    # ---- comparison ----
    def look(self, n, when, whole=True):
        ctx = self.ctx
        say = lambda a, got, want: "%s: %s of the %s is %.200r; assigned: %.200r" % (when, a, n.level, got, want)
        ctx.check(n.real is not None, "lost", lambda: "%s: an attribute that values were assigned to is missing" % when)
        for a in OF[n.level]:
            want = n.values.get(a, ABSENT.get(a))
            raw = accessor(a, "extract")(n.real)
            got = seen(a, raw)
            ctx.check(got == want and type(got) is type(want), "wrong-value", lambda: say(a, got, want))
            self.hand_out(raw)
            if a == "id":               # which has two names
                got = hexid(ext("Identity").extract_name(n.real))
                ctx.check(got == want, "wrong-value", lambda: say("id by its other name", got, want))
        if n.level == "event":
            from opyenxes.extension.std.XExtendedEvent import XExtendedEvent
            w = XExtendedEvent.wrap(n.real)
            for a, x in EXTENDED.items():
                want = n.values.get(a, ABSENT.get(a))
                got = seen(a, getattr(w, EXTENDED_GET.get(a, "get_" + x))())
                ctx.check(got == want, "wrong-value", lambda: say("the extended event's " + a, got, want))
            t = n.values.get("transition")
            want = None if t is None else t.strip().lower() if t.strip().lower() in STANDARD else "unknown"
            for how, f in (("standard transition", lambda: ext("Lifecycle").extract_standard_transition(n.real)),
                           ("the extended event's standard transition", w.get_standard_transition)):
                got = f()
                ctx.check(got == want, "wrong-value", lambda: say(how, got, want))
        if n.level == "log":
            got = ext("Lifecycle").uses_standard_model(n.real)
            want = n.values.get("model") == "standard"
            ctx.check(bool(got) == want, "wrong-value", lambda: say("use of the standard model", got, want))
        got = uris(ext("Semantic").extract_model_reference_uris(n.real))
        want = [urlparse(x).geturl() for x in n.values.get("references", [])]
        ctx.check(got == want, "wrong-value", lambda: say("URIs", got, want))
        if n.level in ("trace", "event"):
            for a in NESTED:
                want = n.nested(a)
                got = getattr(ext("Cost"), "extract_nested_%ss" % a)(n.real)
                ctx.check({tuple(k): v for k, v in got.items()} == want, "nested", lambda: say("nested " + a, got, want))
                self.hand_out(got)
                got = getattr(ext("Cost"), "extract_%ss" % a)(n.real)
                want = {k[0]: v for k, v in want.items() if len(k) == 1}
                ctx.check(got == want, "nested", lambda: say(a + "s", got, want))
                self.hand_out(got)
        if n.own:
            got = (model.type_of(n.real), n.real.get_value())
            ctx.check(got == n.own[:2] and (n.own[2] is None or n.real is n.own[2]), "child",
                      lambda: "%s: an attribute is %r; it was %r%s" % (when, got, n.own[:2], "" if got != n.own[:2] else ", another object"))
            of = n.real.get_extension()
            ctx.check(not whole or (of and of.get_prefix()) == n.of, "child", lambda: "%s: an attribute is of %s; it was of %s" % (
                when, of and of.get_prefix(), n.of))
        keys = {ACC[a][1] for a in n.values} | set(n.kids)
        got = set(n.real.get_attributes())
        ctx.check(got == keys, "other-attributes", lambda: "%s: the %s has attributes %s; expected %s" % (when, n.level, sorted(got), sorted(keys)))
        if whole and n.level != "log":
            got = sorted(e.get_prefix() for e in n.real.get_extensions())
            want = sorted(n.prefixes())
            ctx.check(got == want, "extensions", lambda: "%s: the %s uses extensions %s; expected %s" % (when, n.level, got, want))
        for kid in n.kids.values():
            self.look(kid, when, whole)

    def hand_out(self, x):
        """The caller keeps or changes what it was given."""
        if not isinstance(x, (list, dict)):
            return
        if len(self.handed) < 6:
            self.handed.append((x, type(x)(x)))
        elif isinstance(x, list):
            x.append("the caller's")
        else:
            x.clear()

    def look_all(self, when, but=None):
        for n in self.nodes:
            if n is not but:
                self.look(n, when)
        for x, was in self.handed:
            self.ctx.check(x == was, "handed-out", lambda: "%s: what was handed out before as %r is %r now" % (when, was, x))
        for _ in range(min(3, len(self.handed))):
            self.handed.pop(self.d(len(self.handed)))

    def do(self, target=None, interrupt=None):
        """One request on a random element, perhaps interrupted and made again."""
        ctx = self.ctx
        n = target or self.pick(self.nodes)
        name, call, table = self.request(n)
        ctx.log(self.tag, name, n.level)
        ctx.ops += 1
        if interrupt:
            holder, steps = interrupt
            holder.injected, holder.inject_exc = None, KeyboardInterrupt("simulated")
            holder.inject_at = (holder.n if hasattr(holder, "n") else holder.steps) + steps
            try:
                out = call()
                hurt = False
            except KeyboardInterrupt as e:
                if "simulated" not in str(e):
                    raise
                hurt = True
            holder.inject_at = None
            if hurt:
                ctx.fired("interrupt")
                ctx.state(name, holder.injected)
                self.look_all("after an interruption of '%s' on another element" % name, but=n)
                out = call()
        else:
            out = call()
        if name in ("clone", "clone as an extended event", "adopt"):
            table(out)
        else:
            table()
        return name

    def interesting(self):
        return any(len(n.values) > 1 for n in self.nodes) and len({repr(sorted(n.values.items(), key=str)) for n in self.nodes}) > 1


def run(ctx):
    c = ctx.c
    if ctx.config == "bytecode":
        from .. import sched
        sched.use_instructions()
    if ctx.config in ("threads", "bytecode"):
        return (threads if c.draw("plan", 2) else contended)(ctx)
    if ctx.config == "contended":
        return contended(ctx)
    w = World(ctx)
    w.populate()
    trail = []
    for i in range(4 + c.draw("plan", 26 if ctx.config != "stored" else 16)):
        hit = None
        if ctx.config == "interrupted" and c.draw("plan", 2):
            hit = (ctx.stepper, 1 + c.draw("fault", c.pick("fault", [8, 40, 200])))
        trail.append(w.do(interrupt=hit))
        w.look_all("after '%s'" % trail[-1])
    if ctx.config == "stored":
        stored(ctx, w)
    ctx.state(*trail)
    ctx.nontrivial = w.interesting() and (ctx.config != "interrupted" or "interrupt" in ctx.faults)
    ctx.sample = "%s: %s" % (ctx.config, trail)


def stored(ctx, w):
    """All the elements in one log, written and read."""
    c = ctx.c
    fs = common.new_fs(ctx)
    F = w.F
    log = next((n for n in w.nodes if n.level == "log"), None) or w.element("log")
    traces = [n for n in w.nodes if n.level == "trace"] or [w.element("trace")]
    events = [n for n in w.nodes if n.level == "event"]
    order = [(t, []) for t in traces]
    for t, _ in order:
        log.real.append(t.real)
    for n in events:
        t, mine = order[c.draw("plan", len(order))]
        t.real.append(n.real)
        mine.append(n)
    gz = ".gz" * c.draw("plan", 2)
    ser, parser = common.tools("xes" + gz)
    path = fs.p("log.xes" + gz)
    fs.active = True
    common.write_log(ctx, ser, log.real, path)
    mode = "binary" if gz else c.pick("plan", common.XES_MODES)
    with common.open_for_read(ctx, path, mode) as f:
        back = parser().parse(f)
    ctx.check(len(back) == 1 and len(back[0]) == len(order), "structure", "traces were lost in a file")
    pairs = [(log, back[0])]
    for (t, mine), bt in zip(order, back[0]):
        ctx.check(len(bt) == len(mine), "structure", "events were lost in a file")
        pairs.append((t, bt))
        pairs.extend(zip(mine, bt))
    for n, real in pairs:
        m = n.copy(real)
        m.settle()
        w.look(m, "read back from a file", False)
        w.look(n, "after writing")


def threads(ctx):
    c = ctx.c
    s = Scheduler(ctx)
    common_ = None
    if c.draw("plan", 2):
        common_ = World(ctx, "common")
        common_.populate()
        for _ in range(3 + c.draw("plan", 6)):
            common_.do()
    names = []
    worlds = []

    def body(i, count):
        def f():
            w = World(ctx, "t%d" % i)
            worlds.append(w)
            w.populate()
            for _ in range(count):
                names.append(w.do())
                w.look(w.pick(w.nodes), "t%d after '%s'" % (i, names[-1]))
                if common_ and c.draw("plan", 3) == 0:
                    n = common_.nodes[c.draw("plan", len(common_.nodes))]
                    if c.draw("plan", 2):
                        common_.look(n, "t%d, an element nobody changes" % i)
                    else:
                        m = n.copy(n.real.clone())
                        m.settle()
                        w.look(m, "t%d, a clone of an element nobody changes" % i)
            w.look_all("t%d at its end" % i)
        return f
    n = 2 + c.draw("plan", 2)
    for i in range(n):
        s.spawn("t%d" % i, body(i, 2 + c.draw("plan", 5)))
    s.run()
    for t in s.tasks:
        if t.exc is not None:
            raise t.exc
    for w in worlds + [common_] * (common_ is not None):
        w.look_all("at the end")
    ctx.state(*names)
    ctx.nontrivial = s.switches > 0 and any(w.interesting() for w in worlds)
    ctx.sample = "%s, %d threads: %s" % (ctx.config, n, names)


def contended(ctx):
    """Threads that use the same few accessors at the same time, each on elements of its own."""
    c = ctx.c
    s = Scheduler(ctx)
    few = [c.pick("plan", sorted(ACC) + ["nested"]) for _ in range(1 + c.draw("plan", 2))]
    if c.draw("plan", 2):
        for a in few:
            ext("Cost" if a == "nested" else ACC[a][3])
    trail = []
    wraps = c.draw("plan", 3) == 2
    if wraps:
        from opyenxes.extension.std.XExtendedEvent import XExtendedEvent
        few = [c.pick("plan", sorted(EXTENDED))]

    def body(i, count):
        def f():
            w = World(ctx, "t%d" % i)
            mine, views = {}, {}
            for _ in range(count):
                a = w.pick(few)
                level = w.pick(["trace", "event"] if a == "nested" else ACC[a][0].split())
                if level not in mine or not w.d(3):
                    mine[level] = w.element(level)
                n = mine[level]
                trail.append(a)
                ctx.ops += 1
                if a == "nested":
                    a = w.pick(NESTED)
                    want = {tuple(w.pick(KEYS[:3]) for _ in range(1 + w.d(2))): w.value(a) for _ in range(1 + w.d(2))}
                    getattr(ext("Cost"), "assign_nested_%ss" % a)(n.real, dict(want))
                    for path, v in want.items():
                        at = n
                        for k in path:
                            at = at.kid(k)
                        at.values[a] = v
                    got = getattr(ext("Cost"), "extract_nested_%ss" % a)(n.real)
                    want = n.nested(a)
                else:
                    v = w.value(a)
                    how = None
                    if wraps and level == "event" and a in EXTENDED:
                        if isinstance(v, str):
                            v = v.strip()
                        if id(n) not in views:
                            views[id(n)] = XExtendedEvent.wrap(n.real)
                        how = views[id(n)]
                        getattr(how, "set_" + EXTENDED[a])(w.given(a, v))
                    else:
                        accessor(a, "assign")(n.real, w.given(a, v))
                    want = v[0] if ACC[a][2] == "date" else v
                    n.values[a] = want
                    got = seen(a, accessor(a, "extract")(n.real) if how is None else getattr(how, EXTENDED_GET.get(a, "get_" + EXTENDED[a]))())
                ctx.check(got == want, "wrong-value", lambda: "t%d: %s of the %s is %.200r; assigned: %.200r" % (i, a, level, got, want))
            for n in w.nodes:
                n.settle()
                w.look(n, "t%d at its end" % i)
        return f
    for i in range(2 + c.draw("plan", 3)):
        s.spawn("t%d" % i, body(i, 3 + c.draw("plan", 16)))
    s.run()
    for t in s.tasks:
        if t.exc is not None:
            raise t.exc
    ctx.state("contended", few, s.sig[:12])
    ctx.nontrivial = s.switches > 0
    ctx.sample = "contended %s: %s" % (few, trail)
