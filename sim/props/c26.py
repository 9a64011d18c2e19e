"""C26: what is written says what is in the log to any reader of the format."""
import gzip
import re
import xml.etree.ElementTree as Et

from .. import common, model
from . import c14, c19

ID = "C26"
CONFIGS = [("xes", 4), ("mxml", 4), ("again", 2), ("threads", 2)]
RUNS = {"quick": 3000, "thorough": 60000}
RULE = ("one case = a random log (as for C01; for MXML as for C19) written as XES or MXML, plain or gzip, with short transfers onto the "
        "simulated disk, the host's time zone changing between building and writing; again: after a write of another or the same log "
        "by the same serialiser that failed (disk full, I/O error, kill signal as exception at a drawn step); threads: two to three "
        "threads, each with its own log, sharing the serialisers; the file's bytes are then read by the harness's own strict reader of "
        "the format (not by the library) and compared with the generator's description; non-trivial = a fault, a zone change or a "
        "preemption happened; distinct = different event log")
STATE_MEASURE = "hash of (configuration, format, attribute types, faults)"
REAL = ["opyenxes serialisers, model and factories", "xml.etree and xml.dom of the standard library", "gzip"]
STUB = ["raw file layer (short, failing transfers)", "host time zone", "thread scheduler", "clock", "entropy source"]
ASSUMPTIONS = common.BASE_ASSUMPTIONS + [
    common.THREAD_ASSUMPTION,
    "the strict reader follows the published XES 1.0 and MXML schemas, but not in the bounds of numbers (xs:long, hours of an offset)",
    "text is restricted to characters XML 1.0 can represent; the program opens text files as UTF-8, the encoding of a document that "
    "declares none"]

SPACE = re.compile(r"[\t\n\r ]*\Z")
DATE = re.compile(r"(\d{4,})-(\d\d)-(\d\d)T(\d\d):(\d\d):(\d\d)(?:\.(\d+))?(Z|[+-]\d\d:\d\d)\Z")
FLOAT = re.compile(r"(?:[+-]?(?:\d+(?:\.\d*)?|\.\d+)(?:[eE][+-]?\d+)?|-?INF|NaN)\Z")
INT = re.compile(r"[+-]?\d+\Z")
UUID = re.compile(r"[0-9a-fA-F]{8}(?:-[0-9a-fA-F]{4}){3}-[0-9a-fA-F]{12}\Z")
TYPES = ("string", "date", "int", "float", "boolean", "id", "list", "container")


class Wrong(Exception):
    pass


def need(cond, msg):
    if not cond:
        raise Wrong(msg)


def instant(text):
    m = DATE.match(text)
    need(m, "%r is no xs:dateTime with a zone" % text)
    import datetime as dt
    y, mo, d, h, mi, s = (int(x) for x in m.groups()[:6])
    try:
        t = dt.datetime(y, mo, d, h, mi, s) - dt.datetime(1970, 1, 1)
    except ValueError:
        raise Wrong("%r is no date" % text)
    ms = (t.days * 86400 + t.seconds) * 1000 + int(((m.group(7) or "") + "000")[:3])
    need(not (m.group(7) or "")[3:].strip("0"), "%r is finer than a millisecond" % text)
    z = m.group(8)
    if z != "Z":
        off = int(z[1:3]) * 60 + int(z[4:6])
        ms -= (off if z[0] == "+" else -off) * 60000
    return ms


def value(typ, text):
    if typ == "string":
        return text
    if typ == "date":
        return instant(text)
    if typ == "int":
        need(INT.match(text), "%r is no integer" % text)
        return int(text)
    if typ == "float":
        need(FLOAT.match(text), "%r is no xs:double" % text)
        return repr(float(text))
    if typ == "boolean":
        need(text in ("true", "false", "1", "0"), "%r is no xs:boolean" % text)
        return text in ("true", "1")
    need(UUID.match(text), "%r is no UUID" % text)
    return text.replace("-", "").lower()


def blank(el, what):
    need(SPACE.match(el.text or ""), "%s holds the text %r" % (what, el.text))
    for ch in el:
        need(SPACE.match(ch.tail or ""), "%s holds the text %r" % (what, ch.tail))


def only(el, *names):
    for n in el.attrib:
        need(n in names, "<%s> has an attribute %r" % (el.tag, n))


# ---------------------------------------------------------------- XES
def xes_attr(el):
    need(el.tag in TYPES, "<%s> is no kind of attribute" % el.tag)
    blank(el, "<%s>" % el.tag)
    need("key" in el.attrib, "<%s> without a key" % el.tag)
    kids = list(el)
    if el.tag in ("list", "container"):
        only(el, "key")
        if el.tag == "list" and len(kids) == 1 and kids[0].tag == "values":
            kids = list(kids[0])
        return (el.tag, el.get("key"), None, tuple(xes_attr(k) for k in kids))
    only(el, "key", "value")
    need("value" in el.attrib, "<%s> without a value" % el.tag)
    kids = sorted((xes_attr(k) for k in kids), key=lambda x: x[1])
    return (el.tag, el.get("key"), value(el.tag, el.get("value")), tuple(kids))


def xes_attrs(els):
    return tuple(sorted((xes_attr(e) for e in els), key=lambda x: x[1]))


def tokens(text):
    out, at = [], 0
    for m in re.finditer(r" *(?:'([^']*)'|([^' ]+))(?= |\Z)", text):
        need(m.start() == at, "the keys %r cannot be split" % text)
        out.append(m.group(1) if m.group(1) is not None else m.group(2))
        at = m.end()
    need(not text[at:].strip(" "), "the keys %r cannot be split" % text)
    return tuple(out)


def read_xes(data):
    """-> (the log as canon() has it, {(name, prefix, uri) of the extensions})"""
    root = Et.fromstring(data)
    need(root.tag == "log", "the root is <%s>" % root.tag)
    need(re.match(r"\d+(\.\d+)?\Z", root.get("xes.version", "")), "xes.version is %r" % root.get("xes.version"))
    need("xes.features" in root.attrib, "no xes.features")
    blank(root, "<log>")
    groups = {"extension": [], "global": [], "classifier": [], "attribute": [], "trace": []}
    order, last = list(groups), 0
    for el in root:
        kind = "attribute" if el.tag in TYPES else el.tag
        need(kind in groups, "<%s> in <log>" % el.tag)
        need(order.index(kind) >= last, "<%s> after <%s>" % (el.tag, order[last]))
        last = order.index(kind)
        groups[kind].append(el)
    exts = set()
    for el in groups["extension"]:
        only(el, "name", "prefix", "uri")
        need(len(el) == 0 and len(el.attrib) == 3, "extension %r" % el.attrib)
        row = (el.get("name"), el.get("prefix"), el.get("uri"))
        need(row not in exts, "extension %r twice" % (row,))
        exts.add(row)
    scopes = {"trace": (), "event": ()}
    for el in groups["global"]:
        only(el, "scope")
        blank(el, "<global>")
        need(scopes.get(el.get("scope")) == (), "global scope %r, or twice" % el.get("scope"))
        scopes[el.get("scope")] = tuple(xes_attr(x) for x in el)
    classifiers = []
    for el in groups["classifier"]:
        only(el, "name", "keys", "scope")
        need(len(el) == 0 and "name" in el.attrib and "keys" in el.attrib, "classifier %r" % el.attrib)
        classifiers.append((el.get("name"), tokens(el.get("keys"))))
    traces = []
    for t in groups["trace"]:
        only(t)
        blank(t, "<trace>")
        events, attrs = [], []
        for el in t:
            if el.tag == "event":
                only(el)
                blank(el, "<event>")
                events.append(xes_attrs(el))
            else:
                need(not events, "<%s> of a trace after its events" % el.tag)
                attrs.append(el)
        traces.append((xes_attrs(attrs), tuple(events)))
    return {"attrs": xes_attrs(groups["attribute"]), "exts": frozenset(x[1] for x in exts), "gtrace": scopes["trace"],
            "gevent": scopes["event"], "classifiers": tuple(classifiers), "traces": tuple(traces)}, exts


def check_xes(ctx, data, spec, who):
    from opyenxes.extension.XExtensionManager import XExtensionManager
    try:
        got, exts = read_xes(data)
    except (Wrong, Et.ParseError, UnicodeError) as e:
        ctx.fail("format", "%s is no proper XES document: %s: %r" % (who, e, data[-300:]))
    d = model.diff(model.canon(spec), got)
    ctx.check(d is None, "differs", lambda: "%s says something else than the log: %s" % (who, d))
    for prefix in spec.get("exts", ()):
        x = XExtensionManager().get_by_prefix(prefix)
        ctx.check((x.get_name(), x.get_prefix(), x.get_uri().geturl()) in exts, "extension", lambda: "%s: extension %r is given as %r" % (
            who, prefix, sorted(exts)))


# ---------------------------------------------------------------- MXML
def child(el, name):
    found = [x for x in el if x.tag.lower() == name]
    need(len(found) <= 1, "<%s> holds <%s> %d times" % (el.tag, name, len(found)))
    return found[0] if found else None


def kids_are(el, *names):
    blank(el, "<%s>" % el.tag)
    for x in el:
        need(x.tag.lower() in names, "<%s> in <%s>" % (x.tag, el.tag))


def text_of(el):
    need(len(el) == 0, "<%s> holds elements" % el.tag)
    return el.text or ""


def data_of(el):
    """-> {name: [(text, model reference)]}; a nested attribute may be written under the name of another one"""
    d = child(el, "data")
    out = {}
    if d is not None:
        kids_are(d, "attribute")
        for a in d:
            only(a, "name", "modelReference")
            need("name" in a.attrib, "<attribute> without a name")
            out.setdefault(a.get("name"), []).append((text_of(a), a.get("modelReference")))
    return out


def check_data(where, attrs, el):
    rows = data_of(el)
    for typ, key, val, kids in attrs:
        if key == "semantic:modelReference" or typ in ("list", "container"):
            continue
        need(key in rows, "%s: no data %r" % (where, key))
        problems = [row_problem(text, ref, typ, val, kids) for text, ref in rows[key]]
        need(None in problems, "%s: data %r %s" % (where, key, problems[0]))


def row_problem(text, ref, typ, val, kids):
    """What is wrong with a row of data for an attribute, or None."""
    if typ == "string":
        if text.strip() != val.strip():
            return "is %r, not %r" % (text, val)
    else:
        if typ == "float" and text in ("inf", "-inf", "nan"):     # MXML data is untyped text
            text = {"inf": "INF", "-inf": "-INF", "nan": "NaN"}[text]
        try:
            if value(typ, text) != model.norm_value(typ, val):
                return "is %r, not %r" % (text, val)
        except Wrong as e:
            return "is no %s: %s" % (typ, e)
    want = next((k[2] for k in kids if k[1] == "semantic:modelReference" and k[0] == "string"), None)
    return None if ref == want else "refers to %r, not %r" % (ref, want)


def attr_of(attrs, key):
    return next((a for a in attrs if a[1] == key), None)


def reference_of(a):
    if a is None:
        return None
    r = attr_of(a[3], "semantic:modelReference")
    return r and r[2]


def own_reference(attrs):
    r = attr_of(attrs, "semantic:modelReference")
    return r and r[2]


def read_mxml(data, spec):
    root = Et.fromstring(data)
    need(root.tag.lower() == "workflowlog", "the root is <%s>" % root.tag)
    kids_are(root, "data", "source", "process")
    src = child(root, "source")
    need(src is not None and src.get("program"), "no source program")
    p = child(root, "process")
    need(p is not None, "no process")
    kids_are(p, "data", "processinstance")
    only(p, "id", "description", "modelReference")
    name = attr_of(spec["attrs"], "concept:name")
    need("id" in p.attrib, "a process without id")
    if name:
        need(p.get("id") == name[2], "the process is called %r, not %r" % (p.get("id"), name[2]))
    need(p.get("modelReference") == own_reference(spec["attrs"]), "the process refers to %r" % p.get("modelReference"))
    check_data("process", spec["attrs"], p)
    instances = [x for x in p if x.tag.lower() == "processinstance"]
    need(len(instances) == len(spec["traces"]), "%d instances for %d traces" % (len(instances), len(spec["traces"])))
    for i, (t, x) in enumerate(zip(spec["traces"], instances)):
        where = "instance %d" % i
        kids_are(x, "data", "audittrailentry")
        only(x, "id", "description", "modelReference")
        need("id" in x.attrib, where + " without id")
        name = attr_of(t["attrs"], "concept:name")
        if name:
            need(x.get("id") == name[2], "%s is called %r, not %r" % (where, x.get("id"), name[2]))
        need(x.get("modelReference") == own_reference(t["attrs"]), "%s refers to %r" % (where, x.get("modelReference")))
        check_data(where, t["attrs"], x)
        entries = [y for y in x if y.tag.lower() == "audittrailentry"]
        need(len(entries) == len(t["events"]), "%s: %d entries for %d events" % (where, len(entries), len(t["events"])))
        for j, (e, y) in enumerate(zip(t["events"], entries)):
            entry("%s, entry %d" % (where, j), e["attrs"], y)


def entry(where, attrs, y):
    kids_are(y, "data", "workflowmodelelement", "eventtype", "timestamp", "originator")
    check_data(where, attrs, y)
    el = child(y, "workflowmodelelement")
    need(el is not None, where + ": no WorkflowModelElement")
    name = attr_of(attrs, "concept:name")
    need(text_of(el).strip() == (name[2].strip() if name else ""), "%s is called %r, not %r" % (where, el.text, name and name[2]))
    need(el.get("modelReference") == own_reference(attrs), "%s refers to %r" % (where, el.get("modelReference")))
    el = child(y, "eventtype")
    need(el is not None, where + ": no EventType")
    tr = attr_of(attrs, "lifecycle:transition")
    said = text_of(el).strip()
    need(said in c19.KNOWN or said == "unknown", "%s: %r is no EventType" % (where, said))
    if tr is None:
        need(said == "complete", "%s: EventType %r without a transition" % (where, said))
    elif tr[2].strip().lower() in c19.KNOWN:
        need(said == tr[2].strip().lower() and el.get("unknowntype") is None, "%s: EventType %r for %r" % (where, said, tr[2]))
    else:
        need(said == "unknown" and el.get("unknowntype") == tr[2], "%s: EventType %r, %r for %r" % (where, said, el.get("unknowntype"), tr[2]))
    need(el.get("modelReference") == reference_of(tr), "%s: its EventType refers to %r" % (where, el.get("modelReference")))
    el = child(y, "originator")
    who = attr_of(attrs, "org:resource") or attr_of(attrs, "org:role") or attr_of(attrs, "org:group")
    need((el is None) == (who is None), "%s: Originator %r for %r" % (where, el is not None and el.text, who))
    if who:
        need(text_of(el).strip() == who[2].strip(), "%s: Originator %r for %r" % (where, el.text, who[2]))
        need(el.get("modelReference") == reference_of(who), "%s: its Originator refers to %r" % (where, el.get("modelReference")))
    el = child(y, "timestamp")
    at = attr_of(attrs, "time:timestamp")
    need((el is None) == (at is None), "%s: Timestamp %r for %r" % (where, el is not None and el.text, at))
    if at:
        need(instant(text_of(el).strip()) == at[2][0], "%s: Timestamp %r for %r" % (where, el.text, model.date_text(at[2])))
        need(el.get("modelReference") == reference_of(at), "%s: its Timestamp refers to %r" % (where, el.get("modelReference")))


def check_mxml(ctx, data, spec, who):
    try:
        read_mxml(data, spec)
    except (Et.ParseError, UnicodeError) as e:
        ctx.fail("format", "%s is not well-formed: %s: %r" % (who, e, data[-300:]))
    except Wrong as e:
        ctx.fail("mxml", "%s: %s" % (who, e))


# ---------------------------------------------------------------- runs
def make(ctx, kind, g, scale=0.0, own=True):
    """-> (spec, log)"""
    if kind.startswith("mxml"):
        spec, _ = c19.log_to_write(ctx.c, g, scale)
        for t in spec["traces"]:        # a group or role instead of a resource, a date that refers to a model
            for e in t["events"]:
                ref = (("string", "semantic:modelReference", "http://g/%d" % g.d(9), ()),) if g.d(2) else ()
                if g.d(6) == 0:
                    key = ctx.c.pick("plan", ["org:group", "org:role"])
                    gone = (key,) if g.d(2) else (key, "org:resource")
                    e["attrs"] = tuple(a for a in e["attrs"] if a[1] not in gone) + (("string", key, g.plain(), ref),)
                if g.d(6) == 0:
                    e["attrs"] = tuple(a[:3] + (ref,) if a[1] == "time:timestamp" else a for a in e["attrs"])
        ext_of = None
    else:
        exts = g.register() if own and g.p(0.3) else model.STD_PREFIXES
        spec = g.log(1 + g.d(4), 1 + g.d(4), exts=exts, scale=scale)
        ext_of = None
        if g.p(0.3):
            from opyenxes.extension.XExtensionManager import XExtensionManager
            m = XExtensionManager()
            ext_of = lambda key: m.get_by_prefix(key[:key.index(":")]) if ":" in key else None
    return spec, model.build_log(spec, ext_of=ext_of)


def check_file(ctx, kind, path, spec):
    data = ctx.fs.get(path)
    if kind.endswith("gz"):
        try:
            data = gzip.decompress(data)
        except (OSError, EOFError) as e:
            ctx.fail("format", "%s is no gzip file: %s" % (kind, e))
    ctx.ops += 1
    (check_mxml if kind.startswith("mxml") else check_xes)(ctx, data, spec, "the %s file" % kind)


def storage(ctx):
    c = ctx.c
    fs = common.new_fs(ctx)
    fs.active = True
    fs.short_writes = (0.0, 0.3, 0.9)[c.draw("plan", 3)]
    fs.buffer_size = (0, 7, 64, 500)[c.draw("plan", 4)]
    ctx.clock.tick = c.draw("plan", 3) * 1000
    return fs


def run(ctx):
    c = ctx.c
    fs = storage(ctx)
    if ctx.config == "threads":
        return threads(ctx)
    kind = c.pick("plan", ["xes", "xes", "xes.gz"] if ctx.config == "xes" or (ctx.config == "again" and c.draw("plan", 2)) else ["mxml", "mxml", "mxml.gz"])
    g = model.Gen(c)
    ser = common.tools(kind)[0]
    if ctx.config == "again":
        failing(ctx, kind, ser, g)
    c14.set_zone(ctx, c.pick("fault", c14.HOSTS))
    spec, log = make(ctx, kind, g, 0.04)
    ctx.sample = "%s: %s" % (kind, common.describe(spec))
    c14.set_zone(ctx, c.pick("fault", c14.HOSTS))
    path = fs.p("out." + kind)
    for _ in range(1 + (c.draw("plan", 4) == 3)):
        common.write_log(ctx, ser, log, path)
        check_file(ctx, kind, path, spec)
    ctx.state(ctx.config, kind, sorted({a[0] for a in common.all_attrs(spec)}), sorted(ctx.faults))
    ctx.log("written", kind)
    ctx.nontrivial = bool(ctx.faults)


def failing(ctx, kind, ser, g):
    """A write by the same serialiser that does not get to its end."""
    c, fs = ctx.c, ctx.fs
    spec, log = make(ctx, kind, g, own=False)
    path = fs.p(c.pick("plan", ["first.", "out."]) + kind)
    how = c.draw("fault", 3)
    if how == 0:
        fs.capacity = c.draw("fault", 2000)
    elif how == 1:
        fs.p_eio_write = 0.5
    else:
        ctx.stepper.inject_exc = c.pick("fault", [KeyboardInterrupt, MemoryError])("simulated: interrupted")
        ctx.stepper.inject_at = ctx.stepper.n + 1 + c.draw("fault", (10, 60, 400)[c.draw("fault", 3)])
    try:
        common.write_log(ctx, ser, log, path)
    except (OSError, KeyboardInterrupt, MemoryError) as e:
        if "simulated" not in str(e):
            raise
        if how == 2:
            ctx.fired("interrupt:" + type(e).__name__)
    ctx.stepper.inject_at = None
    fs.capacity = None
    fs.p_eio_write = 0.0


def threads(ctx):
    from ..sched import Scheduler
    c = ctx.c
    s = Scheduler(ctx)
    shared = {k: common.tools(k)[0] for k in ("xes", "xes.gz", "mxml", "mxml.gz")}
    kinds = []
    jobs = []
    for i in range(2 + c.draw("plan", 2)):
        kind = c.pick("plan", sorted(shared))
        kinds.append(kind)
        jobs.append((kind, ) + make(ctx, kind, model.Gen(c, tag="T%d" % i), own=False))

    def body(i, kind, spec, log):
        def go():
            path = ctx.fs.p("out-%d.%s" % (i, kind))
            common.write_log(ctx, shared[kind], log, path)
            check_file(ctx, kind, path, spec)
        return go
    for i, job in enumerate(jobs):
        s.spawn("t%d" % i, body(i, *job))
    s.run()
    for t in s.tasks:
        if t.exc is not None:
            raise t.exc
    ctx.sample = "threads: %s" % kinds
    ctx.state("threads", sorted(kinds), min(s.switches, 20))
    ctx.nontrivial = s.switches > 0
