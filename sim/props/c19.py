"""C19: MXML reading and writing keep the core of a log."""
import gzip
import io

from .. import common, model
from . import c14

ID = "C19"
CONFIGS = [("read", 4), ("write", 4), ("threads", 2)]
RUNS = {"quick": 3000, "thorough": 80000}
RULE = ("read: one case = a random MXML document (1-3 processes, element names in any case, data, descriptions, model references, "
        "known and own event types, dates with any notation, text split by entities, CDATA and comments, children of an entry in any "
        "order), read through 1-3 stream kinds with seeded chunk sizes; write: one case = a random log (any attributes of all types, "
        "some named, timed and transitioned) written as MXML, plain or gzip, over short writes and read back, the host's time zone "
        "changing in between; threads: both by two to three threads at once; compared with the generator's description; non-trivial = "
        "a short transfer, a zone change or a preemption happened; distinct = different event log")
STATE_MEASURE = "hash of (configuration, features of the document, stream kind, faults)"
REAL = common.REAL
STUB = ["raw file layer and chunked streams", "host time zone", "thread scheduler", "clock", "entropy source"]
ASSUMPTIONS = common.BASE_ASSUMPTIONS + [
    common.THREAD_ASSUMPTION,
    "texts are not blank and have no white space at their ends (MXML readers strip it); attribute names occur once per element",
    "a known transition reads in lower case, an absent one as 'complete'; the transitions '' and 'UNKNOWN' are not written",
    "a log or trace without a name may read with a placeholder name; instances without entries are not read"]
KNOWN = ["schedule", "assign", "withdraw", "reassign", "start", "suspend", "resume", "pi_abort", "ate_abort", "complete", "autoskip",
         "manualskip"]


# ---------------------------------------------------------------- documents
class Doc:
    """Random MXML documents and what they say."""

    def __init__(self, c, g, large=0.0):
        self.c = c
        self.g = g
        self.case = c.pick("plan", [str, str, str.lower, str.upper, None])
        self.features = set()
        self.large = self.d(4) if large and g.p(large) else 0

    def d(self, n):
        return self.c.draw("plan", n)

    def several(self, what):
        if self.large == what and self.d(3) == 0:
            self.large = 0
            self.features.add("large")
            return 30 + self.d(150)
        return self.d(4)

    def tag(self, name):
        if self.case is None:
            return "".join(ch.upper() if self.d(2) else ch.lower() for ch in name)
        return self.case(name)

    def words(self):
        s = self.g.plain()
        if self.d(6) == 0:
            s += self.c.pick("plan", ["\n", " \n\t ", "  "]) + self.g.plain()
            self.features.add("inner space")
        return s

    def text(self, s):
        """The same text in pieces."""
        out = []
        pad = self.c.pick("plan", ["", "", "\n\t\t", "  "])
        i = 0
        while i < len(s):
            n = 1 + self.d(len(s) - i) if self.d(3) == 0 else len(s) - i
            part = s[i:i + n]
            k = self.d(5)
            if k == 0 and "]]>" not in part and not part.endswith(("]", "]]")) and "\r" not in part:
                out.append("<![CDATA[%s]]>" % part)
                self.features.add("cdata")
            elif k == 1:
                out.append("".join("&#%d;" % ord(ch) if self.d(2) else esc_text(ch) for ch in part))
            else:
                out.append(esc_text(part))
            i += n
            if i < len(s) and self.d(2):
                out.append(self.c.pick("plan", ["<!-- c -->", "<?pi x?>"]))
                self.features.add("comment")
        return pad + "".join(out) + pad

    def attrs(self, pairs):
        return "".join(' %s="%s"' % (k, model.esc(v)) for k, v in self.c.shuffle("plan", pairs) if v is not None)

    def ref(self):
        if self.d(6):
            return None
        self.features.add("model reference")
        return "http://onto/%s" % self.g.d(9)

    def data(self):
        """-> (text, {key: value spec})"""
        rows, out = {}, []
        if self.d(3) == 0:
            return "", {}
        for i in range(self.several(3)):
            key = "d%d%s" % (i, self.c.pick("plan", ["", " x", "é", "&", ":y"]))
            value, ref = self.words(), self.ref()
            rows[key] = ("string", key, value, (("string", "semantic:modelReference", ref, ()),) if ref else ())
            out.append("<%s%s>%s</%s>" % (self.tag("Attribute"), self.attrs([("name", key), ("modelReference", ref)]), self.text(value),
                                          self.tag("Attribute")) if self.case else
                       "<attribute%s>%s</attribute>" % (self.attrs([("name", key), ("modelReference", ref)]), self.text(value)))
        t = self.tag("Data")
        return "<%s>\n%s</%s>\n" % (t, "\n".join(out), t), rows

    def entry(self):
        want, parts = {}, []

        def leaf(name, text, key, typ, value, ref=None, extra=None, on_event=False):
            t = self.tag(name)
            parts.append("<%s%s>%s</%s>\n" % (t, self.attrs([("modelReference", ref)] + (extra or [])), text, t))
            sub = (("string", "semantic:modelReference", ref, ()),) if ref and not on_event else ()
            want[key] = (typ, key, value, sub)
            if ref and on_event:
                want["semantic:modelReference"] = ("string", "semantic:modelReference", ref, ())
        text, rows = self.data()
        if text:
            parts.append(text)
        want.update(rows)
        if self.d(8):
            s = self.words()
            leaf("WorkflowModelElement", self.text(s), "concept:name", "string", s, self.ref(), on_event=True)
        if self.d(5):
            if self.d(4) == 0:
                s = self.g.plain() if self.d(4) else self.c.pick("plan", ["unknown", "Unknown", "DEFAULT", "complete", "START"])
                leaf("EventType", self.c.pick("plan", ["unknown", "", "", "unknown", "complete", "Unknown"]), "lifecycle:transition", "string", s, self.ref(), [("unknowntype", s)])
                self.features.add("unknowntype")
            else:
                s = self.c.pick("plan", KNOWN)
                leaf("EventType", self.text(s), "lifecycle:transition", "string", s, self.ref())
        if self.d(5):
            v = self.g.value("date")
            leaf("Timestamp", self.text(model.date_text(v)), "time:timestamp", "date", v)
        elif self.d(3) == 2:            # a date that is none
            t = self.tag("Timestamp")
            parts.append("<%s>%s</%s>\n" % (t, self.c.pick("plan", ["", " ", "yesterday", "2009-13-41T10:00:00", "unknown+"]), t))
            self.features.add("no date")
        if self.d(4):
            s = self.words()
            leaf("Originator", self.text(s), "org:resource", "string", s, self.ref())
        if self.d(3) == 0:
            parts = self.c.shuffle("plan", parts)
        t = self.tag("AuditTrailEntry")
        return "<%s>\n%s</%s>\n" % (t, "".join(parts), t), {"attrs": want}

    def instance(self):
        name, ref = self.g.plain() if self.d(8) else None, self.ref()
        desc = self.g.plain() if self.d(3) == 0 else None
        text, want = self.data()
        want = dict(want)
        want["concept:name"] = ("string", "concept:name", name, ())
        if desc:
            want["description"] = ("string", "description", desc, ())
        if ref:
            want["semantic:modelReference"] = ("string", "semantic:modelReference", ref, ())
        entries = [self.entry() for _ in range(self.several(1))]
        t = self.tag("ProcessInstance")
        return "<%s%s>\n%s%s</%s>\n" % (t, self.attrs([("id", name), ("description", desc), ("modelReference", ref)]), text, "".join(
            e[0] for e in entries), t), {"attrs": want, "events": [e[1] for e in entries]}

    def process(self, source):
        name, ref = self.g.plain(), self.ref()
        desc = self.g.plain() if self.d(3) == 0 else None
        text, want = self.data()
        want = dict(want)
        want["concept:name"] = ("string", "concept:name", name, ())
        want["lifecycle:model"] = ("string", "lifecycle:model", "standard", ())
        if source:
            want["source"] = source
        if desc:
            want["description"] = ("string", "description", desc, ())
        if ref:
            want["semantic:modelReference"] = ("string", "semantic:modelReference", ref, ())
        inst = [self.instance() for _ in range(self.several(2))]
        t = self.tag("Process")
        return "<%s%s>\n%s%s</%s>\n" % (t, self.attrs([("id", name), ("description", desc), ("modelReference", ref)]), text, "".join(
            i[0] for i in inst), t), {"attrs": want, "traces": [i[1] for i in inst if i[1]["events"]]}

    def make(self):
        source, stext = None, ""
        if self.d(3):
            program, ref = self.g.plain(), self.ref()
            text, rows = self.data()
            sub = dict(rows)
            if ref:
                sub["semantic:modelReference"] = ("string", "semantic:modelReference", ref, ())
            source = ("string", "source", program, tuple(sub.values()))
            t = self.tag("Source")
            stext = "<%s%s>%s</%s>\n" % (t, self.attrs([("program", program), ("modelReference", ref)]), text, t)
            if rows:
                self.features.add("source data")
        procs = [self.process(source) for _ in range(1 + (self.d(3) if self.d(2) else 0))]
        if self.d(8) == 7:        # data of the file itself: the model has no place for it
            text = self.data()[0]
            stext = stext + text if self.d(2) else text + stext
            self.features.add("data of the file")
        t = self.tag("WorkflowLog")
        if len(procs) > 1:
            self.features.add("several processes")
        head = self.c.pick("plan", ['<?xml version="1.0" encoding="UTF-8" ?>\n', ""])
        return head + "<%s>\n%s%s</%s>\n" % (t, stext, "".join(p[0] for p in procs), t), [p[1] for p in procs]


def esc_text(s):
    return s.replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;")


def want_attrs(rows):
    return tuple(sorted(repr(model.spec_attr(a)) for a in rows.values()))


def got_attrs(el):
    return tuple(sorted(repr(model.see_attr(a)) for a in el.get_attributes().values()))


def compare_element(ctx, where, rows, el):
    for key, a in rows.items():
        b = el.get_attributes().get(key)
        if a[2] is None and key == "concept:name":      # no id: any placeholder
            continue
        ctx.check(b is not None, "missing", lambda: "%s: %r is missing" % (where, key))
        d = model.diff(model.spec_attr(a), model.see_attr(b))
        ctx.check(d is None, "wrong", lambda: "%s: %r differs: %s" % (where, key, d))
    extra = sorted(set(el.get_attributes()) - set(rows))
    ctx.check(not extra, "extra", lambda: "%s: %r does not stand in the document" % (where, extra))


def compare(ctx, wants, logs, who):
    ctx.check(isinstance(logs, list) and len(logs) == len(wants), "processes", lambda: "%s: %r logs for %d processes" % (
        who, logs if not isinstance(logs, list) else len(logs), len(wants)))
    for i, (w, log) in enumerate(zip(wants, logs)):
        compare_element(ctx, "%s: process %d" % (who, i), w["attrs"], log)
        ctx.check(len(log) == len(w["traces"]), "traces", lambda: "%s: process %d has %d traces, not %d" % (who, i, len(log), len(w["traces"])))
        for j, (wt, t) in enumerate(zip(w["traces"], log)):
            compare_element(ctx, "%s: process %d, instance %d" % (who, i, j), wt["attrs"], t)
            ctx.check(len(t) == len(wt["events"]), "events", lambda: "%s: process %d, instance %d has %d events, not %d" % (
                who, i, j, len(t), len(wt["events"])))
            for k, (we, e) in enumerate(zip(wt["events"], t)):
                compare_element(ctx, "%s: process %d, instance %d, entry %d" % (who, i, j, k), we["attrs"], e)
        names = [x.name() for x in log.get_classifiers()]
        ctx.check("MXML Legacy Classifier" in names, "classifiers", lambda: "%s: classifiers %r" % (who, names))
        exts = {x.get_prefix() for x in log.get_extensions()}
        lacking = {"concept", "lifecycle", "org", "time", "semantic"} - exts
        ctx.check(not lacking, "extensions", lambda: "%s: the extensions %r are used but not declared" % (who, sorted(lacking)))


# ---------------------------------------------------------------- logs to write
def log_to_write(c, g, scale=0.0):
    """-> (spec, core): a log of any attributes, and for the log, each non-empty trace and event what must be found again."""
    d = lambda n: c.draw("plan", n)
    spec = g.log(1 + d(3), 1 + d(3), scale=scale) if d(3) else dict(g.log(0, 0), traces=[{"attrs": (), "events": [{"attrs": ()} for _ in range(d(3))]}
                                                                           for _ in range(d(3))])
    reserved = ("concept:name", "lifecycle:transition", "org:resource", "org:role", "org:group", "time:timestamp", "lifecycle:model",
                "source", "description", "semantic:modelReference")

    def reference():
        return (("string", "semantic:modelReference", "http://r/%d" % d(9), ()),) if d(5) == 4 else ()

    def element(attrs, kind):
        # an attribute "concept" with a nested "name" would be written under the name of the reserved one
        rows = {a[1]: a for a in attrs if a[1] not in reserved and a[1] not in ("concept", "lifecycle", "org", "time", "semantic") and a[1].strip() == a[1] and a[1] and "modelReference" not in repr(a)}
        core = {}
        for i in range(d(3)):
            rows["w%d" % i] = ("string", "w%d" % i, g.plain(), reference())
            core["w%d" % i] = rows["w%d" % i]
        if d(8) or kind != "event":
            rows["concept:name"] = core["concept:name"] = ("string", "concept:name", g.plain(), ())
        if d(8) == 0:
            rows["semantic:modelReference"] = core["semantic:modelReference"] = ("string", "semantic:modelReference", "http://o/%d" % d(9), ())
        if kind == "event":
            k = d(6)
            value = None
            if k < 3:
                value = c.pick("plan", KNOWN)
                value = value.upper() if d(5) == 0 else value
                if d(6) == 5:       # not one of the known ones, only much like one
                    value = c.pick("plan", [value + c.pick("plan", ["ed", " Late", "X", "-1"]), "Re" + value, value[:-1] + "E!", "A " + value])
            elif k < 5:
                value = g.plain()
            if value is not None:
                rows["lifecycle:transition"] = ("string", "lifecycle:transition", value, reference())
            core["lifecycle:transition"] = ("string", "lifecycle:transition",
                                            "complete" if value is None else value.lower() if value.lower() in KNOWN else value,
                                            () if value is None else rows["lifecycle:transition"][3])
            if d(4):
                rows["org:resource"] = core["org:resource"] = ("string", "org:resource", g.plain(), reference())
            if d(4) == 0:
                rows["org:role"] = core["org:role"] = ("string", "org:role", g.plain(), ())
            if d(4):
                rows["time:timestamp"] = core["time:timestamp"] = ("date", "time:timestamp", g.value("date"), ())
        return {"attrs": tuple(c.shuffle("plan", list(rows.values())) if d(2) else rows.values())}, core
    top, core = element(spec["attrs"], "log")
    spec = dict(spec, attrs=top["attrs"], exts=frozenset())
    traces, cores = [], []
    for t in spec["traces"]:
        new, tc = element(t["attrs"], "trace")
        events = [element(e["attrs"], "event") for e in t["events"]]
        new["events"] = [e[0] for e in events]
        traces.append(new)
        if events:
            cores.append((tc, [e[1] for e in events]))
    spec["traces"] = traces
    return spec, (core, cores)


def compare_core(ctx, core, logs, who):
    ctx.check(isinstance(logs, list) and len(logs) == 1, "processes", lambda: "%s: %r" % (who, logs))
    log = logs[0]

    def element(where, rows, el):
        for key, a in rows.items():
            b = el.get_attributes().get(key)
            ctx.check(b is not None, "missing", lambda: "%s: %r was not preserved" % (where, key))
            x = model.see_attr(b)
            want = model.spec_attr(a)
            ctx.check(x[:3] == want[:3], "wrong", lambda: "%s: %r was %r and came back as %r" % (where, key, want[2], x[2]))
            if a[3] and key != "concept:name":
                ref = b.get_attributes().get("semantic:modelReference")
                ctx.check(ref is not None and ref.get_value() == a[3][0][2], "reference", lambda: "%s: the model reference %r of %r came back as %r" % (
                    where, a[3][0][2], key, ref and ref.get_value()))
    element(who + ": log", core[0], log)
    ctx.check(len(log) == len(core[1]), "traces", lambda: "%s: %d traces came back as %d" % (who, len(core[1]), len(log)))
    for i, ((tc, ecs), t) in enumerate(zip(core[1], log)):
        element("%s: trace %d" % (who, i), tc, t)
        ctx.check(len(t) == len(ecs), "events", lambda: "%s: the %d events of trace %d came back as %d" % (who, len(ecs), i, len(t)))
        for j, (ec, e) in enumerate(zip(ecs, t)):
            element("%s: trace %d, event %d" % (who, i, j), ec, e)
            for key in ("concept:name", "org:resource", "time:timestamp"):
                if key not in ec and not (key == "org:resource" and ("org:role" in ec)):
                    b = e.get_attributes().get(key)
                    ctx.check(b is None or b.get_value() == "", "invented", lambda: "%s: trace %d, event %d has got a %s: %r" % (
                        who, i, j, key, b and b.get_value()))


# ---------------------------------------------------------------- runs
def run(ctx):
    c = ctx.c
    fs = common.new_fs(ctx)
    fs.active = True
    fs.short_reads = (0.0, 0.3, 0.9)[c.draw("plan", 3)]
    fs.short_writes = (0.0, 0.3, 0.9)[c.draw("plan", 3)]
    fs.buffer_size = (0, 7, 64, 500)[c.draw("plan", 4)]
    if ctx.config == "threads":
        return threads(ctx)
    g = model.Gen(c)
    if ctx.config == "read":
        read(ctx, g, 1 + c.draw("plan", 3), "")
    else:
        write(ctx, g, "")
    ctx.check(not fs.leaked(), "left-open", lambda: "files left open: %r" % [x._path for x in fs.leaked()])
    ctx.nontrivial = bool(ctx.faults)


def read(ctx, g, times, tag):
    c, fs = ctx.c, ctx.fs
    doc = Doc(c, g, 0.03 if ctx.config == "read" else 0.0)
    text, wants = doc.make()
    data = text.encode("utf-8")
    gz = c.draw("plan", 3) == 2
    name = "doc%s.%s" % (tag, "mxml.gz" if gz else "mxml")
    path = fs.put(name, gzip.compress(data, mtime=0) if gz else data)
    ctx.sample = "document of %d bytes, %d processes, %s: %r" % (len(data), len(wants), sorted(doc.features), text[:200])
    pc = common.tools("mxml.gz" if gz else "mxml")[1]
    parser = pc()
    older = []
    for k in range(times):
        mode = c.pick("plan", ["text", "binary"] if gz else common.XES_MODES)
        how = c.pick("plan", ["same", "fresh", "universal"]) if mode in ("text", "binary", "unbuffered") else "same"
        if how == "universal":
            from opyenxes.data_in.XUniversalParser import XUniversalParser
            p = XUniversalParser()
        else:
            p = parser if how == "same" else pc()
        with common.open_for_read(ctx, path, mode) as f:
            logs = p.parse(f)
        ctx.ops += 1
        compare(ctx, wants, logs, "%s (%s, %s)" % (name, mode, how))
        if older and c.draw("plan", 2):         # whatever becomes of logs read before, these stay
            for log in older.pop():
                model.spoil(log, classifiers=False)
            compare(ctx, wants, logs, "%s (%s, %s), after logs read before were changed" % (name, mode, how))
        older.append(logs)
        ctx.state("read", sorted(doc.features), mode, how, gz, sorted(ctx.faults))
        ctx.log("read", name, mode)


def write(ctx, g, tag):
    c, fs = ctx.c, ctx.fs
    spec, core = log_to_write(c, g, 0.07 if ctx.config == "write" else 0.0)
    ctx.sample = "log " + common.describe(spec)
    log = model.build_log(spec)
    before = model.observe(log)
    gz = bool(c.draw("plan", 2))
    kind = "mxml.gz" if gz else "mxml"
    ser, pc = common.tools(kind)
    path = fs.p("out%s.%s" % (tag, kind))
    if not tag:
        c14.set_zone(ctx, c.pick("fault", c14.HOSTS))
    for k in range(1 + (c.draw("plan", 4) == 3)):
        common.write_log(ctx, ser, log, path)
        ctx.ops += 1
    d = model.diff(before, model.observe(log))
    ctx.check(d is None, "log-changed", lambda: "writing changed the log: %s" % d)
    if not tag:
        c14.set_zone(ctx, c.pick("fault", c14.HOSTS))
    mode = c.pick("plan", ["text", "binary"])
    logs = common.read_log(pc(), path, mode)
    ctx.ops += 1
    compare_core(ctx, core, logs, "%s read as %s" % (kind, mode))
    ctx.state("write", kind, mode, sorted(ctx.faults), len(core[1]))
    ctx.log("write", kind, mode)


def threads(ctx):
    from ..sched import Scheduler
    c = ctx.c
    s = Scheduler(ctx)
    kinds = []

    def body(i, what):
        # all drawing happens in the order of the schedule, which is itself drawn
        return lambda: (read if what == "read" else write)(ctx, model.Gen(c, tag="T%d" % i), *((2,) if what == "read" else ()), "-%d" % i)
    for i in range(2 + c.draw("plan", 2)):
        kinds.append(c.pick("plan", ["read", "write"]))
        s.spawn("t%d" % i, body(i, kinds[-1]))
    s.run()
    for t in s.tasks:
        if t.exc is not None:
            raise t.exc
    ctx.sample = "threads: %s" % kinds
    ctx.nontrivial = s.switches > 0
