"""C24: a log holds exactly what the calls made on it put there."""
import datetime as dt
import uuid

from .. import common, model
from ..sched import Scheduler

ID = "C24"
CONFIGS = [("history", 3), ("interrupted", 3), ("threads", 4)]
RUNS = {"quick": 6000, "thorough": 200000}
RULE = ("one case = 8-60 calls drawn from the whole editing interface (factory methods with and without what they may be given, values, "
        "nested attributes, collections, attribute maps shared by several elements, lists of traces and events, identities, globals, "
        "classifiers, extensions, features, cached summaries, clones, prototypes) on a growing set of objects, each mirrored on a "
        "reference model; after each call its result and the objects it touched, at the end all objects are compared with the model, by "
        "identity; interrupted: an asynchronous exception strikes some calls, which must then have happened entirely or not at all; "
        "threads: 2-4 threads edit objects of their own, made from common originals, and fill a common log and trace; non-trivial = an "
        "exception was injected, a preemption happened, or one object is held at two places; distinct = different event log")
STATE_MEASURE = "hash of (configuration, call, kind of object, interruption)"
REAL = common.REAL
STUB = ["thread scheduler", "entropy source"]
ASSUMPTIONS = common.BASE_ASSUMPTIONS + [
    common.THREAD_ASSUMPTION,
    "a map holds attributes under their own keys; what a collection returns as its members is not changed by the caller",
    "ordered insertion is used while all events of the trace have a timestamp (see C11)"]
TYPES = ["string", "date", "int", "float", "boolean", "id", "list", "container"]
DEFAULTS = {"string": "UNKNOWN", "boolean": True, "float": 0.0, "int": 0}


class RMap:
    kind = "map"

    def __init__(self, real, d=None):
        self.real = real
        self.d = dict(d or {})


class RAttr:
    kind = "attr"

    def __init__(self, real, typ, key, value, ext, map_):
        self.real, self.typ, self.key, self.value, self.ext, self.map = real, typ, key, value, ext, map_
        self.members = []


class REl:
    def __init__(self, kind, real, map_):
        self.kind, self.real, self.map = kind, real, map_
        self.items = []
        self.id = None
        self.classifiers, self.gtrace, self.gevent = [], [], []
        self.exts, self.features, self.info = set(), {}, (None, None)


class World:
    """The objects one editor knows and what they should hold."""

    def __init__(self, ctx, tag):
        from opyenxes.factory.XFactory import XFactory
        from opyenxes.extension.XExtensionManager import XExtensionManager
        self.ctx, self.c, self.tag = ctx, ctx.c, tag
        self.f = XFactory
        self.g = model.Gen(ctx.c, rich=0.3, tag=tag)
        self.m = XExtensionManager()
        self.objects = []           # all reference objects, in the order of their creation
        self.n = 0
        self.last = ""

    def d(self, n):
        return self.c.draw("plan", n)

    def check(self, ok, cls, msg):
        self.ctx.check(ok, cls, lambda: "%s%s: %s" % (self.tag and self.tag + ", ", self.last, msg() if callable(msg) else msg))

    # -- choosing
    def of(self, *kinds):
        return [o for o in self.objects if o.kind in kinds]

    def some(self, *kinds):
        fit = self.of(*kinds)
        if not fit:
            return None
        return fit[-1 - self.d(min(4, len(fit)))] if self.d(3) else self.c.pick("plan", fit)

    # -- adopting what the library made
    def adopt(self, r):
        self.objects.append(r)
        return r

    def adopt_map(self, real, d=None):
        return self.adopt(RMap(real, d))

    def bind_attr(self, real, like):
        """The reference of a copy of an attribute."""
        r = RAttr(real, like.typ, like.key, like.value, like.ext, None)
        twin = {}
        if like.typ == "id":
            r.value = (real.get_value(), like.value[1])
        self.check(model.type_of(real) == like.typ, "wrong", lambda: "the copy of a %s is a %s" % (like.typ, model.type_of(real)))
        if like.typ in ("list", "container"):
            got = real.get_collection()
            self.check(len(got) == len(like.members), "wrong", lambda: "%d of %d members copied" % (len(got), len(like.members)))
            for x, m in zip(got, like.members):
                r.members.append(twin[id(m)] if id(m) in twin else twin.setdefault(id(m), self.bind_attr(x, m)))
        r.map = self.bind_map(real.get_attributes(), like.map, twin)
        return self.adopt(r)

    def bind_map(self, real, like, twin=None):
        self.check(sorted(real) == sorted(like.d), "wrong", lambda: "copied keys %r instead of %r" % (sorted(real), sorted(like.d)))
        return self.adopt_map(real, {k: twin[id(a)] if twin and id(a) in twin else self.bind_attr(real[k], a) for k, a in like.d.items()})

    def bind(self, real, like):
        if like.kind == "map":
            return self.bind_map(real, like)
        if like.kind == "attr":
            return self.bind_attr(real, like)
        r = REl(like.kind, real, self.bind_map(real.get_attributes(), like.map))
        if like.kind == "event":
            r.id = real.get_id()
            self.check(r.id != like.id, "wrong", "a copy of an event has its identity")
        else:
            self.check(len(real) == len(like.items), "wrong", lambda: "%d of %d items copied" % (len(real), len(like.items)))
            r.items = [self.bind(x, y) for x, y in zip(list(real), like.items)]
        if like.kind == "log":
            r.classifiers = list(like.classifiers)
            r.exts = set(like.exts)
            r.features = dict(like.features)
            for which, reals in (("gtrace", real.get_global_trace_attributes()), ("gevent", real.get_global_event_attributes())):
                self.check(len(reals) == len(getattr(like, which)), "wrong", lambda: "%d globals copied" % len(reals))
                setattr(r, which, [self.bind_attr(x, y) for x, y in zip(reals, getattr(like, which))])
        return self.adopt(r)

    # -- comparing
    def problem(self, r):
        """What the real object shows that the model does not, as text, or None."""
        x = r.real
        if r.kind == "map":
            if sorted(x) != sorted(r.d) or len(x) != len(r.d) or x.is_empty() != (not r.d):
                return "the map holds %r (empty: %r) instead of %r" % (sorted(x), x.is_empty(), sorted(r.d))
            for k, a in r.d.items():
                if x[k] is not a.real or x.get(k) is not a.real or k not in x:
                    return "the map holds another object under %r" % k
            return None
        if x.get_attributes() is not r.map.real:
            return "its attributes are not the map it was given (%r instead of %r)" % (sorted(x.get_attributes()), sorted(r.map.d))
        if x.has_attributes() != bool(r.map.d):
            return "has_attributes is %r with %d" % (x.has_attributes(), len(r.map.d))
        if r.kind == "attr":
            if model.type_of(x) != r.typ or x.get_key() != r.key or x.get_extension() is not r.ext:
                return "a %s under %r of %r instead of a %s under %r of %r" % (
                    model.type_of(x), x.get_key(), x.get_extension(), r.typ, r.key, r.ext)
            if self.size(r) < 40:
                p = self.texts(r)
                if p:
                    return p
            if r.typ in ("list", "container"):
                return self.differ(x.get_collection(), r.members, "members")
            v = x.get_value()
            if r.typ == "id":
                return None if v is r.value[0] and v.get_uuid() == r.value[1] else "its id is %s instead of %s" % (v, r.value[1])
            if r.typ == "date":
                return None if model.instant_ms(v) == r.value and x.get_value_millis() == r.value else "its instant is %r instead of %r ms" % (v, r.value)
            same = type(v) is type(r.value) and repr(v) == repr(r.value)
            return None if same else "its value is %r instead of %r" % (v, r.value)
        if r.kind == "event":
            return None if x.get_id() is r.id and x == x and hash(x) == hash(x) else "its identity is %s instead of %s" % (x.get_id(), r.id)
        p = self.differ(x, r.items, "items")
        if p or r.kind == "trace":
            return p
        p = self.differ(x.get_global_trace_attributes(), r.gtrace, "global trace attributes") or \
            self.differ(x.get_global_event_attributes(), r.gevent, "global event attributes")
        if p:
            return p
        got = x.get_classifiers()
        if len(got) != len(r.classifiers) or any(a is not b for a, b in zip(got, r.classifiers)):
            return "its classifiers are %r" % ([c.name() for c in got],)
        if {id(e) for e in x.get_extensions()} != {id(e) for e in r.exts}:
            return "its extensions are %r" % (sorted(e.get_name() for e in x.get_extensions()),)
        if x.get_features() != r.features:
            return "its features are %r instead of %r" % (x.get_features(), r.features)
        cls, info = r.info
        if cls is not None and x.get_info(cls) is not info:
            return "the summary it caches is another one"
        return None

    def texts(self, r):
        text = str(r.real)
        if r.typ == "date":
            got = model.instant_ms(dt.datetime.fromisoformat(text.replace("Z", "+00:00")))
            return None if got == r.value else "its text %r is the instant %r instead of %d ms" % (text, got, r.value)
        if r.typ == "id":
            return None if uuid.UUID(text) == r.value[1] else "its text is %r instead of %s" % (text, r.value[1])
        want = self.text(r)
        return None if text == want else "its text is %r instead of %r" % (text, want)

    def text(self, r):
        if r.typ in ("list", "container"):
            return "[%s]" % ",".join("%s:%s" % (m.key, self.text(m)) for m in r.members)
        if r.typ in ("date", "id"):
            return str(r.real)          # compared when the attribute itself is looked at
        return str(r.value).lower() if r.typ == "boolean" else str(r.value)

    @staticmethod
    def differ(reals, refs, what):
        if len(reals) != len(refs):
            return "%d %s instead of %d" % (len(reals), what, len(refs))
        for i, (x, r) in enumerate(zip(reals, refs)):
            if x is not r.real:
                return "another one at place %d of its %s" % (i, what)
        return None

    def look(self, *objs):
        for r in objs:
            p = self.problem(r)
            self.check(p is None, "wrong", lambda: "%s: %s" % (r.kind, p))

    # -- calls: each gives (name, the real call, what the model does, objects to look at)
    #    the real call returns what the second function then gets
    def key(self):
        return self.c.pick("plan", ["k1", "k2", "k3", "concept:name", "time:timestamp", "é x"])

    def value(self, typ):
        """-> (what the library gets, what it should show)"""
        from opyenxes.id.XID import XID
        if typ == "date":
            v = self.g.value("date")
            return model.to_datetime(v), v[0]
        if typ == "id":
            u = uuid.UUID(self.g.value("id"))
            x = XID(u)
            return x, (x, u)
        v = self.g.value(typ)
        return v, v

    def ext(self):
        return self.m.get_by_prefix(self.c.pick("plan", model.STD_PREFIXES)) if self.d(3) == 0 else None

    def create_attr(self, key=None, typ=None):
        f = self.f
        key = key or self.key()
        typ = typ or ("date" if key == "time:timestamp" else self.c.pick("plan", TYPES))
        ext = self.ext()
        if typ in ("list", "container"):
            make, given, shown = getattr(f, "create_attribute_" + typ), (), None
        else:
            v, shown = self.value(typ)
            name = {"string": "literal", "date": "timestamp", "int": "discrete", "float": "continuous"}.get(typ, typ)
            make, given = getattr(f, "create_attribute_" + name), (v,)
            if typ == "date" and self.d(3) == 0:
                given = (shown,)            # in milliseconds
        args = (key,) + given + ((ext,) if ext is not None or self.d(2) else ())

        def then(a):
            return [self.adopt(RAttr(a, typ, key, shown, ext, self.adopt_map(a.get_attributes())))]
        return "create %s" % typ, lambda: make(*args), then, []

    def create_map(self):
        like = self.some("map")
        if like and self.d(3) == 0:
            from opyenxes.model.XAttributeMap import XAttributeMap
            given = like.real if self.d(2) else dict(like.real)
            return "create map of map", lambda: XAttributeMap(given), lambda m: [self.adopt_map(m, like.d)], [like]
        return "create map", lambda: self.f.create_attribute_map(), lambda m: [self.adopt_map(m)], []

    def create_element(self, kind):
        f = self.f
        m = self.some("map") if self.d(2) else None
        args = [m.real] if m else []
        identity = None
        if kind == "event" and self.d(2):
            from opyenxes.id.XIDFactory import XIDFactory
            identity = XIDFactory.create_id()
            args = [m.real if m else None, identity]
        make = getattr(f, "create_" + kind)

        def then(x):
            r = REl(kind, x, m or self.adopt_map(x.get_attributes()))
            if kind == "event":
                r.id = identity if identity is not None else x.get_id()
                self.check(all(o.id is not x.get_id() for o in self.of("event")) or identity is not None, "wrong", "an identity given twice")
            return [self.adopt(r)]
        return "create %s%s%s" % (kind, " with map" if m else "", " with id" if identity is not None else ""), lambda: make(*args), then, [m] if m else []

    def edit_map(self, r=None):
        r = r or self.some("map")
        k = self.d(5)
        a = self.some("attr")
        keys = sorted(r.d)
        if k <= 1 and a:
            def put():
                r.real[a.key] = a.real
            return "put", put, lambda _: r.d.__setitem__(a.key, a), [r, a]
        if k == 2 and a:
            b = self.some("attr")

            def update():
                r.real.update({a.key: a.real, b.key: b.real})
            return "update", update, lambda _: r.d.update({a.key: a, b.key: b}), [r]
        if k == 3 and keys:
            key = self.c.pick("plan", keys)

            def drop(got):
                self.check(got is r.d.pop(key).real, "result", "another attribute removed")
            return "remove", lambda: r.real.pop(key), drop, [r]
        if k == 4 and self.d(4) == 0:
            return "clear", lambda: r.real.clear(), lambda _: r.d.clear(), [r]
        return None

    def set_attributes(self):
        r, m = self.some("attr", "event", "trace", "log"), self.some("map")
        return "set_attributes", lambda: r.real.set_attributes(m.real), lambda _: setattr(r, "map", m), [r, m]

    def set_value(self):
        r = self.some("attr")
        if r.typ in ("list", "container"):
            a = self.some("attr")
            if self.reaches(a, r):
                return None
            return "add_to_collection", lambda: r.real.add_to_collection(a.real), lambda _: r.members.append(a), [r, a]
        v, shown = self.value(r.typ)
        if r.typ == "date" and self.d(2):
            shown = 1000 * self.d(1 << 32) + self.d(1000)
            return "set_value_millis", lambda: r.real.set_value_millis(shown), lambda _: setattr(r, "value", shown), [r]
        if r.typ == "id" and self.d(3) == 0:
            x = r.value[0]
            others = [o for o in self.of("attr") if o.typ == "id" and o.value[0] is x]
            u = uuid.UUID(int=1 + self.d(1 << 64))

            def both(_):
                for o in others:
                    o.value = (x, u)
            return "set_uuid", lambda: x.set_uuid(u), both, others
        return "set_value", lambda: r.real.set_value(v), lambda _: setattr(r, "value", shown), [r]

    def reaches(self, a, b):
        """Whether b stands somewhere inside a (putting a into b would close a circle)."""
        seen, todo = set(), [a]
        while todo:
            x = todo.pop()
            if x is b:
                return True
            if id(x) not in seen:
                seen.add(id(x))
                todo += list(x.d.values()) if x.kind == "map" else [x.map] + list(getattr(x, "members", ())) + list(getattr(x, "items", ()))
        return False

    def edit_list(self):
        r = self.some("trace", "log")
        if r is None:
            return None
        x = self.some("event" if r.kind == "trace" else "trace")
        n = len(r.items)
        k = self.d(9)
        if k <= 2 and x:
            return "append", lambda: r.real.append(x.real), lambda _: r.items.append(x), [r, x]
        if k == 3 and x:
            i = self.d(n + 2) - 1
            return "insert", lambda: r.real.insert(i, x.real), lambda _: r.items.insert(i, x), [r]
        if k == 4 and n:
            i = self.d(n)

            def popped(got):
                self.check(got is r.items.pop(i).real, "result", "another item removed")
            return "pop", lambda: r.real.pop(i), popped, [r]
        if k == 5:
            return "reverse", lambda: r.real.reverse(), lambda _: r.items.reverse(), [r]
        if k == 6 and x:
            y = self.some(x.kind)
            return "extend", lambda: r.real.extend([x.real, y.real]), lambda _: r.items.extend([x, y]), [r]
        if k == 7 and n:
            i, j = sorted((self.d(n + 1), self.d(n + 1)))

            def cut():
                del r.real[i:j]
            return "delete slice", cut, lambda _: r.items.__delitem__(slice(i, j)), [r]
        if k == 8 and r.kind == "trace" and x and all(self.time(e) is not None for e in r.items + [x]):
            t = self.time(x)
            at = n
            while at > 0 and self.time(r.items[at - 1]) > t:
                at -= 1

            def inserted(got):
                r.items.insert(at, x)
                self.check(got == at, "result", lambda: "inserted at %r instead of %d" % (got, at))
            return "insert_ordered", lambda: r.real.insert_ordered(x.real), inserted, [r]
        return None

    @staticmethod
    def time(e):
        a = e.map.d.get("time:timestamp")
        return a.value if a is not None and a.typ == "date" else None

    def header(self):
        r = self.some("log")
        if r is None:
            return None
        k = self.d(6)
        if k == 0:
            a = self.some("attr")
            which = self.c.pick("plan", ["gtrace", "gevent"])
            get = r.real.get_global_trace_attributes if which == "gtrace" else r.real.get_global_event_attributes
            return "add global", lambda: get().append(a.real), lambda _: getattr(r, which).append(a), [r]
        if k == 1:
            from opyenxes.classification.XEventAttributeClassifier import XEventAttributeClassifier
            cl = XEventAttributeClassifier(self.g.text() or "c", ["concept:name", "k1"][:1 + self.d(2)])
            return "add classifier", lambda: r.real.get_classifiers().append(cl), lambda _: r.classifiers.append(cl), [r]
        if k == 2:
            e = self.m.get_by_prefix(self.c.pick("plan", model.STD_PREFIXES))
            if e in r.exts:
                return "drop extension", lambda: r.real.get_extensions().discard(e), lambda _: r.exts.discard(e), [r]
            return "add extension", lambda: r.real.get_extensions().add(e), lambda _: r.exts.add(e), [r]
        if k == 3:
            key, v = self.c.pick("plan", ["xes.version", "xes.features", "openxes.version"]), self.g.text() if self.d(3) else self.c.pick("plan", [None, "", 0, ["a"]])
            return "set_features", lambda: r.real.set_features(key, v), lambda _: r.features.__setitem__(key, v), [r]
        from opyenxes.classification.XEventNameClassifier import XEventNameClassifier
        from opyenxes.classification.XEventResourceClassifier import XEventResourceClassifier
        cl, other = XEventNameClassifier(), XEventResourceClassifier()
        if self.d(2):
            cl, other = other, cl
        if k == 4:
            info = object()
            return "set_info", lambda: r.real.set_info(cl, info), lambda _: setattr(r, "info", (cl, info)), [r]

        def compare(got):
            want = r.info[1] if r.info[0] is not None and r.info[0].name() == cl.name() else None
            self.check(got is want, "result", lambda: "the summary for %s is %r instead of %r" % (cl.name(), got, want))
        return "get_info", lambda: r.real.get_info(cl), compare, [r]

    def identity(self):
        r = self.some("event")
        if r is None:
            return None
        o = self.some("event")
        if self.d(2):
            same = r.id is o.id or r.id.get_uuid() == o.id.get_uuid()
            return "equality", lambda: (r.real == o.real, r.real != o.real, same and hash(r.real) != hash(o.real)), lambda got: self.check(
                got == (same, not same, False), "result", lambda: "equal, different, other hash: %r, same identity: %r" % (got, same)), [r]
        new = self.new_id(o)
        return "set_id", lambda: r.real.set_id(new), lambda _: setattr(r, "id", new), [r]

    def new_id(self, o):
        from opyenxes.id.XIDFactory import XIDFactory
        k = self.d(3)
        return o.id if k == 0 else o.id.clone() if k == 1 else XIDFactory.create_id()

    def clone(self):
        r = self.some("attr", "map", "event", "trace", "log")
        if self.size(r) > 60:
            return None

        def then(x):
            before = len(self.objects)
            self.check(x is not r.real and type(x) is type(r.real), "result", "a clone is %r" % (x,))
            self.bind(x, r)
            return [r] + self.objects[before:]
        return "clone " + r.kind, lambda: r.real.clone(), then, [r]

    def size(self, r, budget=200):
        """The number of objects a copy would have."""
        n, todo = 0, [r]
        while todo and n < budget:
            x = todo.pop()
            n += 1
            todo += list(x.d.values()) if x.kind == "map" else [x.map] + list(getattr(x, "members", ())) + list(getattr(x, "items", ()))
        return n

    def prototype(self):
        from opyenxes.utils.XAttributeUtils import XAttributeUtils
        r = self.some("attr")
        if self.size(r) > 60:
            return None

        def then(x):
            before = len(self.objects)
            like = RAttr(None, r.typ, r.key, DEFAULTS.get(r.typ), r.ext, r.map)
            like.members = r.members
            if r.typ == "date":
                like.value = 0
            elif r.typ == "id":
                like.value = (x.get_value(), x.get_value().get_uuid())
                self.check(like.value[1] != r.value[1], "result", "the prototype of an id has its value")
            self.check(x is not r.real, "result", "a prototype is the attribute itself")
            self.bind_attr(x, like)
            return [r] + self.objects[before:]
        return "derive_prototype", lambda: XAttributeUtils.derive_prototype(r.real), then, [r]

    def kind_of(self):
        from opyenxes.utils.XAttributeUtils import XAttributeUtils
        r = self.some("attr")
        name = {"string": "LITERAL", "date": "TIMESTAMP", "int": "DISCRETE", "float": "CONTINUOUS"}.get(r.typ, r.typ.upper())
        return "type", lambda: (XAttributeUtils.get_type(r.real), XAttributeUtils.get_type_string(r.real)), lambda got: self.check(
            got == (type(r.real), name), "result", lambda: "the type of a %s is %r" % (r.typ, got)), [r]

    def next(self):
        """A call that can be made now."""
        while True:
            k = self.d(18)
            if k < 3 or not self.of("attr"):
                op = self.create_attr()
            elif k == 3:
                op = self.create_map()
            elif k == 4:
                op = self.create_element(self.c.pick("plan", ["event", "trace", "log"]))
            elif k < 8:
                op = self.edit_map()
            elif k == 8:
                op = self.set_attributes()
            elif k == 9:
                op = self.set_value()
            elif k < 13:
                op = self.edit_list()
            elif k == 13:
                op = self.header()
            elif k == 14:
                op = self.identity()
            elif k == 15:
                op = self.clone()
            elif k == 16:
                op = self.prototype()
            else:
                op = self.set_value() if self.d(2) else self.kind_of()
            if op is not None and self.sound(op):
                return op

    def sound(self, op):
        """No attribute may contain itself."""
        if op[0] in ("put", "update", "set_attributes", "add_to_collection"):
            name, _, then, objs = op
            # what would be held by what: every attribute of the objects involved
            if name == "set_attributes":
                return not self.reaches(objs[1], objs[0])
            if name == "add_to_collection":
                return True
            m = objs[0]
            for a in self.of("attr"):
                if self.reaches(a, m):
                    return False if name == "update" else not self.reaches(objs[1], m) and (a is not objs[1])
        return True

    def call(self, interrupt=None):
        """Make one call and compare."""
        name, real, then, objs = op = self.next()
        self.n += 1
        self.last = "call %d (%s)" % (self.n, name)
        if interrupt is not None:
            stepper = self.ctx.stepper
            exc = (KeyboardInterrupt if interrupt[1] else MemoryError)("simulated")
            stepper.injected, stepper.inject_exc, stepper.inject_at = None, exc, stepper.n + interrupt[0]
            error = got = None
            try:
                got = real()
            except BaseException as e:      # noqa: judged below
                error = e
            stepper.inject_at = None
            where = stepper.injected
            if where is not None:
                self.ctx.fired("interrupt:" + type(exc).__name__)
                self.ctx.state(name, where)
                self.last += " interrupted at " + where
            if error is not None:
                if where is None or error is not exc:
                    raise error
                error.__traceback__ = None
                self.settle(op)
                return
        else:
            got = real()
        self.ctx.ops += 1
        more = then(got)
        self.look(*objs)
        if isinstance(more, list):
            self.look(*more)
        self.ctx.state(self.ctx.config, name, [o.kind for o in objs])

    def settle(self, op):
        """After an interruption: the call has happened or it has not."""
        name, real, then, objs = op
        if name.startswith(("create", "clone", "derive", "type", "get_info", "equality")):
            self.look(*objs)
            return
        first = next((p for p in map(self.problem, objs) if p), None)
        if first is None:
            return
        # results do not matter any more
        if name == "pop":
            i = next(i for i in range(len(objs[0].items)) if i >= len(objs[0].real) or objs[0].real[i] is not objs[0].items[i].real)
            del objs[0].items[i]
        elif name == "remove":
            for k in [k for k in objs[0].d if k not in objs[0].real][:1]:
                del objs[0].d[k]
        elif name == "insert_ordered":
            at = next((i for i in range(len(objs[0].real)) if i >= len(objs[0].items) or objs[0].real[i] is not objs[0].items[i].real), 0)
            then(at)
        else:
            then(None)
        self.look(*objs)
        self.ctx.probe("done although interrupted")

    def finish(self):
        self.last = "after %d calls" % self.n
        self.look(*self.objects)
        for log in self.of("log"):
            model.observe(log.real) if self.size(log) < 200 else None


def held_twice(w):
    seen = {}
    for o in w.objects:
        for x in list(o.d.values()) if o.kind == "map" else [o.map] + list(getattr(o, "members", ())) + list(getattr(o, "items", ())):
            seen[id(x)] = seen.get(id(x), 0) + 1
    return any(v > 1 for v in seen.values())


def run(ctx):
    c = ctx.c
    if ctx.config == "threads":
        return threads(ctx)
    w = World(ctx, "")
    for _ in range(8 + c.draw("plan", 53)):
        hit = ctx.config == "interrupted" and c.draw("fault", 2)
        w.call((1 + c.draw("fault", 8 if c.draw("fault", 3) else 60), c.draw("fault", 2)) if hit else None)
    w.finish()
    ctx.sample = "%d calls, %d objects, last %s" % (w.n, len(w.objects), w.last)
    ctx.log("history", w.n, [o.kind for o in w.objects])
    ctx.nontrivial = bool(ctx.faults) or held_twice(w)


def threads(ctx):
    c = ctx.c
    base = World(ctx, "")
    for _ in range(3 + c.draw("plan", 20)):
        base.call()
    log, trace = base.f.create_log(), base.f.create_trace()
    originals = [o for o in base.objects if base.size(o) < 40]
    worlds, given = [], []
    s = Scheduler(ctx)

    def editor(w, n, mine):
        def f():
            if originals:
                for _ in range(c.draw("plan", 3)):      # copies of what all threads see
                    o = c.pick("plan", originals)
                    w.last = "cloning a common %s" % o.kind
                    w.bind(o.real.clone(), o)
            for _ in range(n):
                w.call()
                k = c.draw("plan", 4)
                if k == 0 and w.of("trace"):
                    t = w.some("trace").real
                    log.append(t)
                    mine[0].append(t)
                elif k == 1 and w.of("event"):
                    e = w.some("event").real
                    trace.append(e)
                    mine[1].append(e)
            w.finish()
        return f
    for i in range(2 + c.draw("plan", 3)):
        w = World(ctx, "thread %d" % i)
        mine = ([], [])
        worlds.append(w)
        given.append(mine)
        s.spawn("t%d" % i, editor(w, 3 + c.draw("plan", 15), mine))
    s.run()
    for t in s.tasks:
        if t.exc is not None:
            raise t.exc
    base.finish()
    for w in worlds:
        w.finish()
    for which, common_list in ((0, log), (1, trace)):
        want = [x for mine in given for x in mine[which]]
        ctx.check(sorted(map(id, want)) == sorted(id(x) for x in common_list), "lost", lambda: "%d of %d appended items are in the common %s" % (
            len(common_list), len(want), ("log", "trace")[which]))
        for i, mine in enumerate(given):
            ids = {id(x) for x in mine[which]}
            other = {id(x) for j, m in enumerate(given) if j != i for x in m[which]}
            got = [id(x) for x in common_list if id(x) in ids and id(x) not in other]
            ctx.check(got == [id(x) for x in mine[which]], "order", lambda: "items of thread %d are in another order" % i)
    ctx.sample = "%d threads, %d calls" % (len(worlds), sum(w.n for w in worlds))
    ctx.log("threads", [w.n for w in worlds], len(log), len(trace))
    ctx.nontrivial = s.switches > 0
