"""Plain-Python descriptions ("specs") of logs: generation from choice streams, building the real
objects, observing real objects, comparing.  The spec is the oracle; it never goes through the
library's own parser or serialiser.

attribute spec: (type, key, value, children)
  type in string date int float boolean id list container
  value: str / instant in ms since 1970 plus offset minutes / int / float / bool / hex / None
  children: nested attributes (list members for list and container)
log spec: dict(attrs, traces=[dict(attrs, events=[dict(attrs)])], exts, gtrace, gevent, classifiers)
"""
import datetime as dt
import uuid

UTC = dt.timezone.utc
EPOCH = dt.datetime(1970, 1, 1, tzinfo=UTC)

WORDS = ["a", "register", "check ticket", "x", "Ann", "b2", "pay"]
SPICE = ["<", "&", "\"", "'", "]]>", ">", "&amp;", "<!--", "é", "日本", "\U0001F600", " ", "  ",
         "\n", "\t", "\r", "\r\n", " ", "", "%", "\\", "{}", "\x85", "​", "ß", "&#10;", "\xa0"]
KEYS = ["k", "name", "cost", "org", "v1", "K", "key with space", "é", "a:b", "q\"q", "<k>", "x&y",
        "concept:name:x", "org:", ":x", "Concept:name"]
STD_KEYS = ["concept:name", "lifecycle:transition", "org:resource", "time:timestamp", "concept:instance",
            "identity:id", "cost:total", "semantic:modelReference", "org:role"]
STD_PREFIXES = ["concept", "cost", "identity", "lifecycle", "micro", "org", "semantic", "time"]
STD_TYPES = {"concept:name": "string", "lifecycle:transition": "string", "org:resource": "string",
             "org:role": "string", "time:timestamp": "date", "concept:instance": "string",
             "identity:id": "id", "cost:total": "float", "semantic:modelReference": "string"}


class Gen:
    """Draws log specs.  `c` is a Choices; all draws come from one stream."""

    def __init__(self, c, stream="plan", rich=1.0, tag=""):
        self.c = c
        self.s = stream
        self.rich = rich
        self.tag = tag          # mixed into every string so that values are attributable
        self.n = 0
        self.ids = []           # ids drawn before: some are referred to again
        self.prefixes = ()      # of extensions registered besides the standard ones

    def d(self, n):
        return self.c.draw(self.s, n)

    def p(self, prob):
        return self.c.chance(self.s, prob)

    def text(self):
        self.n += 1
        base = self.c.pick(self.s, WORDS)
        if self.tag:
            base = "%s-%s-%d" % (self.tag, base, self.n)
        if self.p(0.25 * self.rich):
            k = 1 + self.d(3)
            for _ in range(k):
                sp = self.c.pick(self.s, SPICE)
                w = self.d(3)
                base = sp + base if w == 1 else base + sp if w == 0 else base[:1] + sp + base[1:]
        elif self.p(0.03 * self.rich):
            base = base * (1 + self.d(400))
        elif self.p(0.04 * self.rich):
            base = ""
        return base

    def millis(self):
        k = self.d(4)
        if k == 0:
            return 1_400_000_000_000 + self.d(1_000_000_000)
        if k == 1:
            return self.d(2_000_000_000) * 1000 + self.d(1000)
        if k == 2:
            return -self.d(60_000_000_000_000)          # back to about the year 69
        return self.d(250_000_000_000_000)              # up to about the year 9890

    def offset(self):
        k = self.d(5)
        if k == 0:
            return 0
        if k == 1:
            return 60 * (self.d(25) - 12)
        if k == 2:
            return self.c.pick(self.s, [330, 345, -210, -30, 765, -720, 840, 30])
        return self.d(1439 * 2 + 1) - 1439

    def value(self, typ):
        if typ == "string":
            return self.text()
        if typ == "date":
            ms, off = self.millis(), self.offset()
            lim = 62135596800000 - 86400000
            ms = max(-lim, min(ms, 253402300799999 - 86400000))
            return (ms, off)
        if typ == "int":
            k = self.d(4)
            return [self.d(1000), -self.d(1000), self.d(1 << 62), self.d(1 << 62) * -(1 << 40)][k]
        if typ == "float":
            k = self.d(5)
            if k == 0:
                return self.d(1000) / 8.0
            if k == 1:
                return -self.d(1 << 30) / 1000.0
            if k == 2:
                return self.c.pick(self.s, [0.0, -0.0, 1e300, -1e-300, 5e-324, float("inf"), float("-inf"), 0.1])
            if k == 3:
                return float(self.d(1 << 53)) * 1e-5
            return float("nan")
        if typ == "boolean":
            return bool(self.d(2))
        if typ == "id":
            if self.ids and self.p(0.2):
                return self.c.pick(self.s, self.ids)
            self.ids.append("%032x" % ((self.d(1 << 64) << 64) | self.d(1 << 64) | 1))
            return self.ids[-1]
        return None

    def key(self):
        self.n += 1
        k = self.d(4)
        if k == 0:
            return "k%d" % self.n
        if k == 1:
            return self.c.pick(self.s, STD_KEYS)
        if k == 2:
            if self.prefixes and self.p(0.6):
                return self.c.pick(self.s, self.prefixes) + ":" + self.c.pick(self.s, WORDS)
            return self.c.pick(self.s, KEYS)
        return self.text()

    def register(self):
        """Register up to two extensions of the user's own; they can be declared and used by the logs drawn from now on."""
        from opyenxes.extension.XExtension import XExtension
        from opyenxes.extension.XExtensionManager import XExtensionManager
        import urllib.parse
        for i in range(self.d(3)):
            prefix = self.c.pick(self.s, ["own", "o", "Own-Prefix", "a_prefix_of_quite_some_length", "conceptual", "pr\u00e9fixe"]) + "7" * i
            name = self.c.pick(self.s, ["Own", "My extension", "Caf\u00e9 <&>", "own"]) + "8" * i
            uri = self.c.pick(self.s, ["http://own.example/%d.xesext", "http://own.example:8080/x/%d?a=1&b=2#f", "file:///own%d.xesext"]) % i
            XExtensionManager().register(XExtension(name, prefix, urllib.parse.urlparse(uri)))
            self.prefixes += (prefix,)
        return STD_PREFIXES + list(self.prefixes)

    def attr(self, depth):
        key = self.key()
        typ = self.c.weighted(self.s, [(4, "string"), (2, "int"), (2, "date"), (2, "boolean"), (2, "float"),
                                       (2, "id"), (2 if depth < 3 else 0, "list"), (2 if depth < 3 else 0, "container")])
        if key in STD_TYPES and self.p(0.8):
            typ = STD_TYPES[key]
        children = ()
        if typ in ("list", "container"):
            children = tuple(self.attr(depth + 1) for _ in range(self.d(4)))
        elif depth < 3 and self.p(0.2 * self.rich):
            children = self.attrs(depth + 1, 3)
        return (typ, key, self.value(typ), children)

    def attrs(self, depth=0, most=4):
        out, seen = [], set()
        for _ in range(self.d(most + 1)):
            a = self.attr(depth)
            if a[1] not in seen:
                seen.add(a[1])
                out.append(a)
        return tuple(out)

    def classifier(self):
        name = self.text() or "c"
        keys = []
        for _ in range(1 + self.d(4)):
            k = self.c.pick(self.s, ["concept:name", "org:resource", "lifecycle:transition", "key with space", "k1", "é x", "a&b",
                                     " lead", "trail ", "two  blanks", "K1", "no\xa0break", "tab\tkey"])
            if k not in keys:
                keys.append(k)
        return (name, tuple(keys))

    # -- logs whose MXML form is predictable --
    def plain(self):
        """Text that survives in MXML: no control white space, stripped, not empty."""
        self.n += 1
        base = self.c.pick(self.s, WORDS)
        if self.tag:
            base = "%s-%s-%d" % (self.tag, base, self.n)
        if self.p(0.3 * self.rich):
            base += self.c.pick(self.s, ["<", "&", "\"", "'", "]]>", ">", "&amp;", "<!--", "é", "日本", "\U0001F600", "%", "{}",
                                         "&#10;", " ", "--"]) + self.c.pick(self.s, WORDS)
        elif self.p(0.01 * self.rich):
            base = base * (1 + self.d(2000))
        return base

    def data_attrs(self, most=3):
        out = []
        for i in range(self.d(most + 1)):
            out.append(("string", "d%d%s" % (i, self.c.pick(self.s, ["", " x", "é", "&"])), self.plain(), ()))
        return out

    def mxml_event(self):
        attrs = []
        attrs.append(("string", "concept:name", self.plain(), ()))
        if self.p(0.8):
            attrs.append(("string", "lifecycle:transition", self.c.pick(
                self.s, ["complete", "start", "Start", "ate_abort", "AUTOSKIP", "my own", "é<"]), ()))
        if self.p(0.7):
            attrs.append(("string", "org:resource", self.plain(), ()))
        if self.p(0.8):
            attrs.append(("date", "time:timestamp", self.value("date"), ()))
        attrs += self.data_attrs()
        return {"attrs": tuple(attrs)}

    def mxml_log(self, most_traces=3, most_events=3):
        name = [("string", "concept:name", self.plain(), ())]
        return self.repeat({
            "attrs": tuple(name + self.data_attrs()), "exts": frozenset(), "gtrace": (), "gevent": (), "classifiers": (),
            "traces": [{"attrs": tuple([("string", "concept:name", self.plain(), ())] + self.data_attrs()),
                        "events": [self.mxml_event() for _ in range(1 + self.d(most_events))]}
                       for _ in range(self.d(most_traces + 1))],
        })

    def repeat(self, spec):
        """Now and then a part of the log comes twice, with the same content."""
        k = self.d(40)
        traces = spec["traces"]
        if k < 2 and traces:
            i = self.d(len(traces))
            t = traces[i]
            traces.insert(i if k else len(traces), {"attrs": t["attrs"], "events": [dict(e) for e in t["events"]]})
        elif k < 4:
            for t in traces:
                if t["events"]:
                    i = self.d(len(t["events"]))
                    t["events"].insert(i if k == 2 else len(t["events"]), dict(t["events"][i]))
        elif k == 4:
            spec["classifiers"] += spec["classifiers"][:1]
        elif k < 7:
            scope = "gtrace" if k == 5 else "gevent"
            spec[scope] += spec[scope][:1 + self.d(2)]
        return spec

    def grow(self, spec):
        """Make one dimension of the log much larger than the others."""
        d = self.d
        traces = spec["traces"]
        if not traces:
            traces.append({"attrs": (), "events": []})
        where = [spec] + traces + [e for t in traces for e in t["events"]]
        e = where[d(len(where))]
        k = d(12)
        if k in (0, 11):    # deep
            a = ("string", "deepest", self.text(), ())
            for i in range(5 + d(25)):
                typ = self.c.pick(self.s, ["string", "int", "list", "container", "boolean", "date"])
                a = (typ, "deep%d" % i, self.value(typ), (a,))
            e["attrs"] += (a,)
        elif k == 1:        # many attributes
            new = [("int" if i % 3 else "string", "many%d" % i, i if i % 3 else "v%d" % i, ()) for i in range(30 + d(300))]
            e["attrs"] += tuple(new)
        elif k == 2:        # many members
            new = [("int" if i % 3 else "string", "m%d" % (i // 2), i if i % 3 else "v%d" % i, ()) for i in range(30 + d(300))]
            e["attrs"] += ((self.c.pick(self.s, ["list", "container"]), "members", None, tuple(new)),)
        elif k == 3:        # many events
            t = traces[d(len(traces))]
            t["events"] += [{"attrs": (("int", "number", i, ()),)} for i in range(50 + d(1200))]
        elif k == 4:        # many traces
            traces += [{"attrs": (("int", "number", i, ()),), "events": [{"attrs": ()}] * (i % 3)} for i in range(50 + d(500))]
        elif k == 5:        # long text
            n = 5000 + d(200000)
            unit = self.c.pick(self.s, ["x", "<&>", "\n", "é", "日本語 ", "😀", "0123456789abcdef", " "])
            text = ("a" * d(5) + unit * (n // len(unit)) + self.c.pick(self.s, ["z", "\tz", "\n", "<z", " ", "&z", "\rz"]))
            e["attrs"] += (("string", "long" if d(2) else "k" * d(5000) + "x", text, ()),)
        elif k == 6:        # many global attributes
            new = tuple(("int", "many%d" % i, i, ()) for i in range(20 + d(200)))
            have = {a[1] for a in new}
            which = self.c.pick(self.s, ["gtrace", "gevent"])
            spec[which] = tuple(a for a in spec[which] if a[1] not in have) + new
        elif k == 7:        # many attributes nested in one
            typ = self.c.pick(self.s, ["string", "int", "boolean", "date", "id", "float"])
            e["attrs"] += ((typ, "nest", self.value(typ), tuple(("int" if i % 3 else "string", "n%d" % i, i if i % 3 else "v%d" % i, ())
                                                                for i in range(30 + d(300)))),)
        elif k == 8:        # many events as they come in practice, in no particular order
            t = traces[d(len(traces))]
            t["events"] += [{"attrs": (("string", "concept:name", self.c.pick(self.s, WORDS), ()), ("date", "time:timestamp", self.value("date"), ())) +
                             ((("int", "number", i, ()),) if d(2) else ())} for i in range(70 + d(400))]
        elif k == 10:       # collections in collections
            a = ("string", "k", self.text(), (("int", "below", 1, ()),))
            for i in range(4 + d(12)):
                a = (self.c.pick(self.s, ["list", "container"]), "in%d" % (i % 3), None, (("int", "n", i, ()), a) if d(2) else (a,))
            e["attrs"] += (("string", "first", "x", (a,)) if d(2) else a,)
        else:               # many classifiers, some of many keys
            spec["classifiers"] += tuple(("many%d" % i, tuple("k%d" % j for j in range(1 + (d(60) if i % 10 == 0 else 1))))
                                         for i in range(5 + d(60)))
        return spec

    def log(self, most_traces=3, most_events=3, exts=STD_PREFIXES, scale=0.0):
        if scale and self.p(scale):
            return self.grow(self.log(most_traces, most_events, exts))
        gtrace = self.attrs(0, 2) if self.p(0.4) else ()
        gevent = self.attrs(0, 2) if self.p(0.4) else ()
        if gtrace and self.p(0.3):      # the same attribute may be global in both scopes, as a rule concept:name is
            gevent = gtrace[:1] + tuple(a for a in gevent if a[1] != gtrace[0][1])
        return self.repeat({
            "attrs": self.attrs(),
            "exts": frozenset(self.c.subset(self.s, exts, 0.3)),
            "gtrace": gtrace,
            "gevent": gevent,
            "classifiers": tuple(self.classifier() for _ in range(self.d(3))),
            "traces": [{"attrs": self.attrs(), "events": [{"attrs": self.attrs()} for _ in range(self.d(most_events + 1))]}
                       for _ in range(self.d(most_traces + 1))],
        })


# ---------------------------------------------------------------- building
def to_datetime(v):
    ms, off = v
    tz = UTC if off == 0 else dt.timezone(dt.timedelta(minutes=off))
    return (EPOCH + dt.timedelta(milliseconds=ms)).astimezone(tz)




def build_attr(f, spec, ext_of=None):
    typ, key, value, children = spec
    ext = ext_of(key) if ext_of else None
    if typ == "string":
        a = f.create_attribute_literal(key, value, ext)
    elif typ == "date":
        a = f.create_attribute_timestamp(key, to_datetime(value), ext)
    elif typ == "int":
        a = f.create_attribute_discrete(key, value, ext)
    elif typ == "float":
        a = f.create_attribute_continuous(key, value, ext)
    elif typ == "boolean":
        a = f.create_attribute_boolean(key, value, ext)
    elif typ == "id":
        from opyenxes.id.XID import XID
        a = f.create_attribute_id(key, XID(uuid.UUID(value)), ext)
    elif typ == "list":
        a = f.create_attribute_list(key, ext)
    elif typ == "container":
        a = f.create_attribute_container(key, ext)
    else:
        raise ValueError(typ)
    for ch in children:
        sub = build_attr(f, ch, ext_of)
        if typ in ("list", "container"):
            a.add_to_collection(sub)
        else:
            a.get_attributes()[ch[1]] = sub
    return a


def put_attrs(f, element, attrs, ext_of=None):
    for spec in attrs:
        element.get_attributes()[spec[1]] = build_attr(f, spec, ext_of)


def build_log(spec, f=None, manager=None, ext_of=None):
    if f is None:
        from opyenxes.factory.XFactory import XFactory
        f = XFactory()
    log = f.create_log()
    put_attrs(f, log, spec["attrs"], ext_of)
    if spec.get("exts"):
        if manager is None:
            from opyenxes.extension.XExtensionManager import XExtensionManager
            manager = XExtensionManager()
        for prefix in sorted(spec["exts"]):
            log.get_extensions().add(manager.get_by_prefix(prefix))
    for a in spec.get("gtrace", ()):
        log.get_global_trace_attributes().append(build_attr(f, a, ext_of))
    for a in spec.get("gevent", ()):
        log.get_global_event_attributes().append(build_attr(f, a, ext_of))
    if spec.get("classifiers"):
        from opyenxes.classification.XEventAttributeClassifier import XEventAttributeClassifier
        for name, keys in spec["classifiers"]:
            log.get_classifiers().append(XEventAttributeClassifier(name, list(keys)))
    for t in spec["traces"]:
        trace = f.create_trace()
        put_attrs(f, trace, t["attrs"], ext_of)
        for e in t["events"]:
            event = f.create_event()
            put_attrs(f, event, e["attrs"], ext_of)
            trace.append(event)
        log.append(trace)
    return log


# ---------------------------------------------------------------- observing
def instant_ms(d, naive=False):
    """Milliseconds since 1970 of an aware datetime, floored; naive datetimes are reported as such or taken as UTC."""
    if naive and d.tzinfo is None:
        d = d.replace(tzinfo=UTC)
    if d.tzinfo is None or d.utcoffset() is None:
        return "naive %r" % (d,)
    delta = d - EPOCH
    return (delta.days * 86400 + delta.seconds) * 1000 + delta.microseconds // 1000


def type_of(a):
    from opyenxes.model.XAttributeLiteral import XAttributeLiteral
    from opyenxes.model.XAttributeTimestamp import XAttributeTimestamp
    from opyenxes.model.XAttributeDiscrete import XAttributeDiscrete
    from opyenxes.model.XAttributeContinuous import XAttributeContinuous
    from opyenxes.model.XAttributeBoolean import XAttributeBoolean
    from opyenxes.model.XAttributeID import XAttributeID
    from opyenxes.model.XAttributeList import XAttributeList
    from opyenxes.model.XAttributeContainer import XAttributeContainer
    for cls, name in ((XAttributeLiteral, "string"), (XAttributeTimestamp, "date"), (XAttributeDiscrete, "int"),
                      (XAttributeContinuous, "float"), (XAttributeBoolean, "boolean"), (XAttributeID, "id"),
                      (XAttributeList, "list"), (XAttributeContainer, "container")):
        if isinstance(a, cls):
            return name
    return type(a).__name__


def norm_value(typ, value):
    """Canonical comparable form of a spec value."""
    if typ == "date":
        return value[0]
    if typ == "float":
        return repr(value)
    if typ in ("list", "container"):
        return None
    return value


def spec_attr(spec):
    typ, key, value, children = spec
    kids = [spec_attr(c) for c in children]
    if typ not in ("list", "container"):
        kids = sorted(kids, key=lambda x: x[1])
    return (typ, key, norm_value(typ, value), tuple(kids))


def see_attr(a, depth=0):
    typ = type_of(a)
    if depth > 40:
        return (typ, "too deep", None, ())
    if typ in ("list", "container"):
        kids = tuple(see_attr(x, depth + 1) for x in a.get_collection())
        return (typ, a.get_key(), None, kids)
    v = a.get_value()
    if typ == "date":
        v = instant_ms(v) if hasattr(v, "tzinfo") else "not a date: %r" % (v,)
    elif typ == "float":
        v = repr(v)
    elif typ == "id":
        v = v.get_uuid().hex if v is not None else None
    elif typ == "boolean":
        v = v if isinstance(v, bool) else "not a bool: %r" % (v,)
    elif typ == "int":
        v = v if isinstance(v, int) and not isinstance(v, bool) else "not an int: %r" % (v,)
    kids = []
    for k, x in a.get_attributes().items():
        s = see_attr(x, depth + 1)
        if k != s[1]:
            s = s + (("stored under", k),)
        kids.append(s)
    return (typ, a.get_key(), v, tuple(sorted(kids, key=lambda x: x[1])))


def spec_attrs(attrs):
    return tuple(sorted((spec_attr(a) for a in attrs), key=lambda x: x[1]))


def see_attrs(el):
    out = []
    for k, a in el.get_attributes().items():
        s = see_attr(a)
        if k != s[1]:
            s = s + (("stored under", k),)
        out.append(s)
    return tuple(sorted(out, key=lambda x: x[1]))


def canon(spec):
    """Spec of a log -> comparable nested tuples."""
    return {
        "attrs": spec_attrs(spec["attrs"]),
        "exts": frozenset(spec.get("exts", ())),
        "gtrace": tuple(spec_attr(a) for a in spec.get("gtrace", ())),
        "gevent": tuple(spec_attr(a) for a in spec.get("gevent", ())),
        "classifiers": tuple((n, tuple(k)) for n, k in spec.get("classifiers", ())),
        "traces": tuple((spec_attrs(t["attrs"]), tuple(spec_attrs(e["attrs"]) for e in t["events"]))
                        for t in spec["traces"]),
    }


def observe(log):
    """A real log -> the same form as canon()."""
    return {
        "attrs": see_attrs(log),
        "exts": frozenset(e.get_prefix() for e in log.get_extensions()),
        "gtrace": tuple(see_attr(a) for a in log.get_global_trace_attributes()),
        "gevent": tuple(see_attr(a) for a in log.get_global_event_attributes()),
        "classifiers": tuple((c.name(), tuple(c.get_defining_attribute_keys())) for c in log.get_classifiers()),
        "traces": tuple((see_attrs(t), tuple(see_attrs(e) for e in t)) for t in log),
    }


def every_attribute(log):
    """Every attribute object of a log, at every depth, once."""
    out, seen = [], set()

    def walk(a):
        if id(a) not in seen:
            seen.add(id(a))
            out.append(a)
            for x in list(a.get_attributes().values()) + (list(a.get_collection()) if hasattr(a, "get_collection") else []):
                walk(x)
    for el in [log] + list(log) + [e for t in log for e in t]:
        for a in list(el.get_attributes().values()):
            walk(a)
    for a in list(log.get_global_trace_attributes()) + list(log.get_global_event_attributes()):
        walk(a)
    return out


def spoil_value(a):
    """Change the value of an attribute, an id in place."""
    t = type_of(a)
    if t == "id":
        a.get_value().set_uuid(uuid.UUID(int=0x5b011ed0000000000000000000000000 + (a.get_value().get_uuid().int & 0xffff)))
    elif t == "date":
        a.set_value_millis(a.get_value_millis() // 2 - 1)
    elif t not in ("list", "container"):
        a.set_value({"string": "spoilt", "int": 4711, "float": 47.11, "boolean": not a.get_value()}[t])


def own_value(a):
    return type_of(a), a.get_key(), a.get_value().get_uuid() if type_of(a) == "id" else str(a.get_value()) if hasattr(a, "get_value") else None


def spoil(log, classifiers=True):
    """Change everything a log consists of, but for the extensions and, if so wished, the classifiers it shares with other logs."""
    for a in every_attribute(log):
        spoil_value(a)
        a.get_attributes().clear()
        if hasattr(a, "add_to_collection"):
            a.add_to_collection(a)
    if classifiers:
        for x in log.get_classifiers():
            x.set_name("spoilt")
            if isinstance(x.get_defining_attribute_keys(), list):
                x.get_defining_attribute_keys().append("spoilt")
    for el in [log] + list(log) + [e for t in log for e in t]:
        el.get_attributes().clear()
    for t in log:
        del t[:]
    for part in (log.get_classifiers(), log.get_global_trace_attributes(), log.get_global_event_attributes(), log.get_extensions(),
                 log.get_features(), log):
        part.clear()


def diff(a, b, path="log"):
    """First difference of two canonical values, as text (None if equal).  a expected, b found."""
    if type(a) is not type(b):
        return "%s: expected %.200r, found %.200r" % (path, a, b)
    if isinstance(a, dict):
        for k in a:
            if k not in b:
                return "%s: %r missing" % (path, k)
            d = diff(a[k], b[k], "%s.%s" % (path, k))
            if d:
                return d
        return None
    if isinstance(a, tuple):
        if len(a) != len(b):
            return "%s: expected %d items, found %d: expected %.300r, found %.300r" % (path, len(a), len(b), a, b)
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, "%s[%d]" % (path, i))
            if d:
                return d
        return None
    return None if a == b else "%s: expected %.200r, found %.200r" % (path, a, b)


def ext_problems(log):
    """Attributes whose extension is not the one registered for their key's prefix."""
    from opyenxes.extension.XExtensionManager import XExtensionManager
    m = XExtensionManager()
    bad = []

    def visit(a, depth=0):
        key = a.get_key()
        want = m.get_by_prefix(key[:key.index(":")]) if ":" in key else None
        if a.get_extension() is not want:
            bad.append((key, a.get_extension() and a.get_extension().get_name(), want and want.get_name()))
        if depth < 20:
            kids = list(a.get_attributes().values())
            for x in kids:
                visit(x, depth + 1)
    for el in [log] + list(log) + [e for t in log for e in t]:
        for a in el.get_attributes().values():
            visit(a)
    for a in list(log.get_global_trace_attributes()) + list(log.get_global_event_attributes()):
        visit(a)
    return bad


# ---------------------------------------------------------------- XES text written by the harness
def esc(s):
    out = []
    for ch in s:
        if ch in "<>&\"'\n\t\r" or ord(ch) > 126:
            out.append("&#%d;" % ord(ch))
        else:
            out.append(ch)
    return "".join(out)


def date_text(v):
    ms, off = v
    d = to_datetime(v)
    s = "%04d-%02d-%02dT%02d:%02d:%02d.%03d" % (d.year, d.month, d.day, d.hour, d.minute, d.second, ms % 1000)
    if off == 0:
        return s + "Z"
    return s + "%s%02d:%02d" % ("+" if off > 0 else "-", abs(off) // 60, abs(off) % 60)


def xes_attr(spec, out, ind):
    typ, key, value, children = spec
    tab = "\t" * ind
    if typ == "date":
        text = date_text(value)
    elif typ == "boolean":
        text = "true" if value else "false"
    elif typ == "float":
        text = repr(value)
    elif typ == "id":
        text = str(uuid.UUID(value))
    elif typ in ("list", "container"):
        text = None
    else:
        text = str(value)
    head = "%s<%s key=\"%s\"" % (tab, typ, esc(key))
    if text is not None:
        head += " value=\"%s\"" % esc(text)
    if not children:
        out.append(head + "/>\n")
        return
    out.append(head + ">\n")
    for c in children:
        xes_attr(c, out, ind + 1)
    out.append("%s</%s>\n" % (tab, typ))


def xes_text(spec, ext_uri=None):
    """An XES document for a spec, independent of the library's serialiser."""
    out = ["<?xml version=\"1.0\" encoding=\"UTF-8\" ?>\n<log xes.version=\"1.0\" xes.features=\"nested-attributes\">\n"]
    for p in sorted(spec.get("exts", ())):
        out.append("\t<extension name=\"%s\" prefix=\"%s\" uri=\"http://www.xes-standard.org/%s.xesext\"/>\n" % (p, p, p))
    for scope in ("trace", "event"):
        attrs = spec.get("g" + scope, ())
        if attrs:
            out.append("\t<global scope=\"%s\">\n" % scope)
            for a in attrs:
                xes_attr(a, out, 2)
            out.append("\t</global>\n")
    for name, keys in spec.get("classifiers", ()):
        toks = " ".join("'%s'" % k if " " in k else k for k in keys)
        out.append("\t<classifier name=\"%s\" keys=\"%s\"/>\n" % (esc(name), esc(toks).replace("&#39;", "'")))
    for a in spec["attrs"]:
        xes_attr(a, out, 1)
    for t in spec["traces"]:
        out.append("\t<trace>\n")
        for a in t["attrs"]:
            xes_attr(a, out, 2)
        for e in t["events"]:
            out.append("\t\t<event>\n")
            for a in e["attrs"]:
                xes_attr(a, out, 3)
            out.append("\t\t</event>\n")
        out.append("\t</trace>\n")
    out.append("</log>\n")
    return "".join(out)


def size(spec):
    return sum(1 + len(t["events"]) for t in spec["traces"])


def mxml_text(spec, ind=True):
    """An MXML document for a spec made by Gen.mxml_log, independent of the library's serialiser."""
    nl = "\n" if ind else ""
    out = ["<?xml version=\"1.0\" encoding=\"UTF-8\"?>", nl, "<WorkflowLog><Source program=\"sim\"/>", nl]

    def data(attrs):
        rows = [a for a in attrs if not a[1].startswith(("concept:", "lifecycle:", "org:", "time:"))]
        if rows:
            out.append("<Data>")
            for a in rows:
                out.append("<attribute name=\"%s\">%s</attribute>" % (esc(a[1]), esc(a[2])))
            out.append("</Data>" + nl)

    def value(attrs, key):
        return next((a[2] for a in attrs if a[1] == key), None)
    out.append("<Process id=\"%s\">%s" % (esc(value(spec["attrs"], "concept:name")), nl))
    data(spec["attrs"])
    for t in spec["traces"]:
        out.append("<ProcessInstance id=\"%s\">%s" % (esc(value(t["attrs"], "concept:name")), nl))
        data(t["attrs"])
        for e in t["events"]:
            a = e["attrs"]
            out.append("<AuditTrailEntry>")
            data(a)
            out.append("<WorkflowModelElement>%s</WorkflowModelElement>" % esc(value(a, "concept:name")))
            tr = value(a, "lifecycle:transition")
            if tr is not None:
                out.append("<EventType>%s</EventType>" % esc(tr))
            ts = value(a, "time:timestamp")
            if ts is not None:
                out.append("<Timestamp>%s</Timestamp>" % date_text(ts))
            o = value(a, "org:resource")
            if o is not None:
                out.append("<Originator>%s</Originator>" % esc(o))
            out.append("</AuditTrailEntry>" + nl)
        out.append("</ProcessInstance>" + nl)
    out.append("</Process></WorkflowLog>")
    return "".join(out)
