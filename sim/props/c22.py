"""C22: an XES document of any program is read as what it says."""
import gzip

from .. import common, model
from . import c14

ID = "C22"
CONFIGS = [("read", 5), ("rewrite", 2), ("threads", 2)]
RUNS = {"quick": 2400, "thorough": 80000}
RULE = ("read: one case = a random XES document as other programs write them (element names in any case, XML attributes in any order, "
        "either quote, character references and internal entities, blanks for line breaks, comments, processing instructions, "
        "unknown elements and XML attributes, a wrapper around list members, header elements in any order, extensions by prefix, by URI "
        "or unknown, numbers, truth values and dates in every notation of their type, four encodings, with or without byte order mark "
        "and XML declaration), read 1-3 times through 1-3 stream kinds in transfers of seeded size by the same or fresh parsers while "
        "the host's time zone changes; rewrite: the log read is written and read again; threads: 2-3 threads read documents of their own "
        "with shared or own parsers; compared with the generator's description; non-trivial = a short transfer, a zone change or a "
        "preemption happened; distinct = different event log")
STATE_MEASURE = "hash of (configuration, features of the document, stream kind, faults)"
REAL = common.REAL
STUB = ["raw file layer", "caller-supplied streams", "host time zone", "thread scheduler"]
ASSUMPTIONS = common.BASE_ASSUMPTIONS + [
    common.THREAD_ASSUMPTION,
    "documents are well-formed, without namespace prefixes; every attribute has a key and a value of its type, dates have years of four digits, hours up to 23 and at "
    "most nine digits of a second; keys are distinct on each element except among the members of a list or container",
    "instants are compared to the millisecond"]


class Doc:
    def __init__(self, c, g, exts):
        self.c = c
        self.g = g
        self.uris = exts            # prefix -> URI
        self.features = set()
        self.case = c.pick("plan", [str, str, str, str.upper, str.capitalize, None])
        self.encoding = c.weighted("plan", [(4, "utf-8"), (1, "utf-16"), (1, "iso-8859-1"), (1, "us-ascii")])
        self.bom = self.encoding == "utf-8" and self.d(6) == 0
        self.pretty = c.pick("plan", ["\n", "\n", "", "\r\n", "\n\n  "])
        self.odd = (0, 0, 30, 8)[self.d(4)]         # how often something unusual stands between elements
        self.entities = self.d(8) == 0
        self.values_wrap = self.d(3) == 0

    def d(self, n):
        return self.c.draw("plan", n)

    def tag(self, name):
        if self.case is None:
            return "".join(ch.upper() if self.d(2) else ch for ch in name)
        return self.case(name)

    def char(self, ch):
        k = self.d(12)
        if ch in "\n\t\r":
            return "&#%d;" % ord(ch) if k % 2 else "&#x%X;" % ord(ch)
        if ch == " " and k == 0:
            self.features.add("blank as line break")
            return self.c.pick("plan", ["\n", "\t", "\r\n", "\r"])
        try:
            ch.encode(self.encoding)
        except UnicodeEncodeError:
            return "&#%d;" % ord(ch)
        if ch in "<&":
            return {"<": "&lt;", "&": "&amp;"}[ch] if k % 2 else "&#%d;" % ord(ch)
        if ch in "\"'":
            return {"\"": "&quot;", "'": "&apos;"}[ch] if k % 2 else "&#x%x;" % ord(ch)
        if k == 1 or ch == "\x85":
            return "&#x%x;" % ord(ch)
        if self.entities and ch == "e" and k < 4:
            self.features.add("entity")
            return "&eee;"
        return ch

    def value(self, s):
        if len(s) > 400:            # long: all but the ends as they are
            body = s[20:-20].encode(self.encoding, "xmlcharrefreplace").decode(self.encoding) if not any(
                ch in s[20:-20] for ch in "<&\"'\n\t\r\x85") else model.esc(s[20:-20])
            return self.chars(s[:20]) + body + self.chars(s[-20:])
        return self.chars(s)

    def chars(self, s):
        out = ""
        for ch in s:
            piece = self.char(ch)
            if out.endswith("\r") and piece.startswith("\n"):
                piece = "\t"        # the two would be one line break, and so one blank
            out += piece
        return out

    def xml_attrs(self, pairs):
        out = []
        for k, v in self.c.shuffle("plan", pairs) if self.d(3) == 0 else pairs:
            q = self.c.pick("plan", ['"', '"', "'"])
            out.append("%s%s%s%s%s" % (self.c.pick("plan", [" ", " ", "  ", "\n\t"]), k, self.c.pick("plan", ["=", "=", " = "]), q, v + q))
        return "".join(out)

    def gap(self):
        if self.odd and self.d(self.odd) == 0:
            self.features.add("comment")
            return self.c.pick("plan", ["<!-- <event> -->", "<?pi <trace> ?>", "<!---->", "stray text", "<![CDATA[<string key='x'/>]]>",
                                        "<unknown x='1'/>", "<meta key='no' value='no'></meta>"]) + self.pretty
        return self.pretty

    def number(self, typ, v):
        if typ == "int":
            s = str(v)
            if v >= 0 and self.d(6) == 0:
                s = self.c.pick("plan", ["+", "0", "00"]) + s
        else:
            s = repr(v)
            if v != v or v in (float("inf"), float("-inf")):
                return {"nan": "NaN", "inf": "INF", "-inf": "-INF"}[s]
            k = self.d(6)
            if k == 0 and abs(v) < 1e15 and v == int(v) and not (v == 0 and s[0] == "-"):
                s = str(int(v))
            elif k == 1:
                s = s.replace("e", "E")
            elif k == 2 and v > 0:
                s = "+" + s
        return s

    def date(self, v):
        s = model.date_text(v)
        i = s.index(".")
        frac, zone = s[i + 1:i + 4], s[i + 4:]
        k = self.d(8)
        if k == 0 and frac == "000":
            frac = ""
        elif k == 1:
            frac = frac.rstrip("0") or "0"
        elif k == 2:
            frac += "0" * self.d(7)
        elif k == 3:
            frac += "".join(str(self.d(10)) for _ in range(self.d(7)))
        self.features.add("fraction %d" % len(frac))
        if zone == "Z":
            zone = self.c.pick("plan", ["Z", "+00:00", "-00:00", ""])
        self.features.add("zone " + (zone[:1] or "none"))
        return s[:i] + ("." + frac if frac else "") + zone

    def attr(self, a):
        typ, key, value, children = a
        if typ == "boolean":
            text = "true" if value else "false"
            k = self.d(6)
            text = text.upper() if k == 0 else text.capitalize() if k == 1 else "01"[value] if k == 2 else text
            self.features.add("truth value " + text)
        elif typ in ("int", "float"):
            text = self.number(typ, value)
        elif typ == "date":
            text = self.date(value)
        elif typ == "id":
            text = "%s-%s-%s-%s-%s" % (value[:8], value[8:12], value[12:16], value[16:20], value[20:])
            text = text.upper() if self.d(2) else text
        elif typ in ("list", "container"):
            text = self.c.pick("plan", [None, None, ""])
        else:
            text = self.value(value)
        if typ in ("boolean", "int", "float", "date", "id") and self.d(12) == 0:
            self.features.add("padded " + typ)
            text = self.c.pick("plan", [" ", "", "\n\t"]) + text + self.c.pick("plan", [" ", "", "\r\n"])
        pairs = [("key", self.value(key))]
        if text is not None:
            pairs.append(("value", text))
        if self.odd and self.d(self.odd) == 0:
            pairs.append(("note", "x"))
        head = "<" + self.tag(typ)
        t = self.tag(typ)
        head = "<%s%s" % (t, self.xml_attrs(pairs))
        if not children:
            return head + self.c.pick("plan", ["/>", " />", "></%s>" % t, ">%s</%s>" % (self.gap(), t)]) + self.gap()
        kids = "".join(self.attr(x) for x in children)
        if typ in ("list", "container") and self.values_wrap:
            w = self.tag("values")
            self.features.add("values element")
            kids = "<%s>%s%s</%s>%s" % (w, self.gap(), kids, w, self.gap())
        return "%s>%s%s</%s>%s" % (head, self.gap(), kids, t, self.gap())

    def block(self, name, pairs, body):
        t = self.tag(name)
        if not body and self.d(2):
            return "<%s%s/>%s" % (t, self.xml_attrs(pairs), self.gap())
        return "<%s%s>%s%s</%s>%s" % (t, self.xml_attrs(pairs), self.gap(), body, t, self.gap())

    def make(self, spec):
        parts = []
        for p in sorted(spec["exts"]):
            uri, k = self.uris[p], self.d(5)
            pairs = [("name", self.value(p.capitalize())), ("prefix", self.value(p)), ("uri", self.value(uri))]
            if k == 0:
                pairs = pairs[2:]
                self.features.add("extension by uri")
            elif k == 1:        # a program may use the extension under a prefix of its own
                pairs[1] = ("prefix", "px%d" % self.d(9) if self.d(4) else "")
                self.features.add("own prefix")
            parts.append(self.block("extension", pairs, ""))
        if self.d(4) == 0:
            pairs = [("name", self.value("Mine")), ("prefix", "zz%d" % self.d(3)), ("uri", self.value(self.c.pick("plan", [
                "http://z/mine.xesext", "http://z/\u00e9.xesext", "urn:\u4e8b\u4ef6 \u2192", "mine", "", "http://[z/mine.xesext"])))]
            parts.append(self.block("extension", [x for i, x in enumerate(pairs) if i != 1 or self.d(3)], ""))
            self.features.add("unknown extension")
        for scope in ("trace", "event"):
            if spec["g" + scope]:
                s = scope.upper() if self.d(8) == 0 else scope
                parts.append(self.block("global", [("scope", s)], "".join(self.attr(a) for a in spec["g" + scope])))
        order = []
        for name, keys in spec["classifiers"]:
            sep = self.c.pick("plan", [" ", "  "])
            toks = sep.join("'%s'" % k if " " in k or self.d(6) == 0 else k for k in keys)
            pairs = [("name", self.value(name)), ("keys", toks.replace("&", "&amp;").encode(self.encoding, "xmlcharrefreplace").decode(
                self.encoding))]
            if self.d(5) == 0:
                pairs.append(("scope", "event"))
            order.append(pairs)
        for pairs in order:
            # the value may hold single quotes, so always in double ones
            parts.append("<%s name=\"%s\" keys=\"%s\"%s/>%s" % (self.tag("classifier"), pairs[0][1], pairs[1][1],
                                                               " scope=\"event\"" if len(pairs) > 2 else "", self.gap()))
        parts_a = [self.attr(a) for a in spec["attrs"]]
        traces = []
        for t in spec["traces"]:
            events = [self.block("event", [], "".join(self.attr(a) for a in e["attrs"])) for e in t["events"]]
            traces.append(self.block("trace", [], "".join([self.attr(a) for a in t["attrs"]] + events)))
        k = self.d(6)
        if k == 0:
            self.features.add("header mixed")
            groups = [[p] for p in parts_a] + [[p for p in parts]]
            body = "".join(p for grp in self.c.shuffle("plan", groups) for p in grp) + "".join(traces)
        elif k == 1:
            self.features.add("header last")
            body = "".join(parts_a) + "".join(traces) + "".join(parts)
        else:
            body = "".join(parts) + "".join(parts_a) + "".join(traces)
        feats = [("xes.version", self.c.pick("plan", ["1.0", "2.0", "1849-2016"])), ("xes.features", self.c.pick("plan", [
            "", "nested-attributes"])), ("openxes.version", "1.0RC7")][:self.d(4)]
        pairs = list(feats)
        if self.d(3) == 0:
            pairs.append(("xmlns", "http://www.xes-standard.org/"))
        t = self.tag("log")
        text = "<%s%s>%s%s</%s>" % (t, self.xml_attrs(pairs), self.gap(), body, t) + self.c.pick("plan", ["", "\n", "\n<!-- end -->\n"])
        head = ""
        if self.encoding in ("iso-8859-1", "us-ascii") or self.entities or self.d(4):
            enc = {"utf-8": "UTF-8", "utf-16": "UTF-16", "iso-8859-1": "ISO-8859-1", "us-ascii": "US-ASCII"}[self.encoding]
            head = "<?xml version='1.0'%s%s?>" % (" encoding=\"%s\"" % enc if self.encoding not in ("utf-8", "utf-16") or self.d(3) else "",
                                                 self.c.pick("plan", ["", " standalone=\"yes\"", " "])) + self.pretty
        if self.entities:
            head += "<!DOCTYPE log [<!ENTITY eee \"e\">]>" + self.pretty
        if self.d(5) == 0:
            head += "<!-- written by hand -->" + self.pretty
        self.features.add(self.encoding)
        data = (head + text).encode(self.encoding)
        return (b"\xef\xbb\xbf" if self.bom else b"") + data, dict(feats)


def spec_of(g, scale=0.0, exts=model.STD_PREFIXES):
    spec = g.log(1 + g.d(3), 1 + g.d(3), exts=exts, scale=scale)
    # what a document cannot tell from something else
    keep = []
    for name, keys in spec["classifiers"]:
        if name and not any("'" in k or "\t" in k for k in keys):
            keep.append((name, keys))
    return dict(spec, classifiers=tuple(keep))


def one(ctx, g, tag, times, parser=None, scale=0.0, rewrite=False):
    from opyenxes.extension.XExtensionManager import XExtensionManager
    from opyenxes.data_in.XUniversalParser import XUniversalParser
    c, fs = ctx.c, ctx.fs
    m = XExtensionManager()
    exts = g.register() if not tag and g.d(3) == 0 else model.STD_PREFIXES
    uris = {p: m.get_by_prefix(p).get_uri().geturl() for p in exts}
    spec = spec_of(g, scale, exts)
    doc = Doc(c, g, uris)
    data, feats = doc.make(spec)
    want = model.canon(spec)
    gz = c.draw("plan", 4) == 3
    kind = "xes.gz" if gz else "xes"
    name = "doc%s.%s" % (tag, kind)
    path = fs.put(name, gzip.compress(data, mtime=0) if gz else data)
    if not tag:
        ctx.sample = "%s document of %d bytes, %s: %r" % (doc.encoding, len(data), sorted(doc.features), data[:300])
    pc = common.tools(kind)[1]
    parser = parser.get(kind) if parser else pc()
    only_bytes = doc.encoding != "utf-8" or doc.bom
    log, older = None, []
    for k in range(times):
        modes = ["binary", "unbuffered"] + ([] if tag else ["bytesio", "short-bytes"])
        modes += [] if only_bytes else ["text"] + ([] if tag else ["stringio", "short-text"])
        mode = c.pick("plan", ["binary"] if gz else modes)
        how = c.pick("plan", ["same", "same", "fresh", "universal"]) if mode in ("text", "binary", "unbuffered") else "same"
        p = XUniversalParser() if how == "universal" else parser if how == "same" else pc()
        if not tag:
            c14.set_zone(ctx, c.pick("fault", c14.HOSTS))
        with common.open_for_read(ctx, path, mode) as f:
            logs = p.parse(f)
        ctx.ops += 1
        compare(ctx, want, logs, feats, "%s (%s, %s)" % (name, mode, how))
        log = logs[0]
        if older and c.draw("plan", 2):         # whatever becomes of a log read before, this one stays
            model.spoil(older.pop())
            compare(ctx, want, logs, feats, "%s (%s, %s), after a log read before was changed" % (name, mode, how))
            ctx.probe("older log changed")
        older.append(log)
        ctx.state(ctx.config, sorted(doc.features), mode, how, gz, sorted(ctx.faults))
        ctx.log("read", name, mode)
    for x in doc.features:
        ctx.probe(x)
    if rewrite:
        out = c.pick("plan", ["xes", "xes.gz"])
        ser, pc = common.tools(out)
        path = fs.p("again." + out)
        common.write_log(ctx, ser, log, path)
        c14.set_zone(ctx, c.pick("fault", c14.HOSTS))
        logs = common.read_log(pc(), path, c.pick("plan", ["text", "binary"]))
        ctx.ops += 1
        compare(ctx, want, logs, None, "written again as " + out)
    parts = model.every_attribute(log)
    if parts and c.draw("plan", 2):             # each attribute has a value of its own
        a = c.pick("plan", [x for x in parts if model.type_of(x) == "id"] or parts)
        before = [model.own_value(x) for x in parts]
        model.spoil_value(a)
        for x, old in zip(parts, before):
            ctx.check(x is a or model.own_value(x) == old, "shared-value", lambda: "%s: changing the value of %r changed that of %r from %r" % (
                name, a.get_key(), x.get_key(), old))


def compare(ctx, want, logs, feats, who):
    ctx.check(isinstance(logs, list) and len(logs) == 1, "log-count", lambda: "%s: %.200r" % (who, logs))
    d = model.diff(want, model.observe(logs[0]))
    ctx.check(d is None, "differs", lambda: "%s: %s" % (who, d))
    bad = model.ext_problems(logs[0])
    ctx.check(not bad, "extension", lambda: "%s: attributes of another extension: %r" % (who, bad[:3]))
    if feats is not None:
        got = dict(logs[0].get_features())
        ctx.check(got == feats, "features", lambda: "%s: features %r became %r" % (who, feats, got))


def run(ctx):
    c = ctx.c
    fs = common.new_fs(ctx)
    fs.active = True
    fs.short_reads = (0.0, 0.3, 0.9)[c.draw("plan", 3)]
    fs.buffer_size = (0, 7, 64, 500)[c.draw("plan", 4)]
    if ctx.config == "threads":
        return threads(ctx)
    one(ctx, model.Gen(c), "", 1 + c.draw("plan", 3), scale=0.03, rewrite=ctx.config == "rewrite")
    ctx.check(not fs.leaked(), "left-open", lambda: "files left open: %r" % [x._path for x in fs.leaked()])
    ctx.nontrivial = bool(ctx.faults)


def threads(ctx):
    from ..sched import Scheduler
    c = ctx.c
    s = Scheduler(ctx)
    shared = {k: common.tools(k)[1]() for k in ("xes", "xes.gz")} if c.draw("plan", 2) else None

    def body(i):
        # all drawing happens in the order of the schedule, which is itself drawn
        return lambda: one(ctx, model.Gen(c, tag="T%d" % i, rich=0.6), "-%d" % i, 1 + c.draw("plan", 2), shared)
    for i in range(2 + c.draw("plan", 2)):
        s.spawn("t%d" % i, body(i))
    s.run()
    for t in s.tasks:
        if t.exc is not None:
            raise t.exc
    ctx.sample = "%d threads, %s" % (len(s.tasks), "shared parsers" if shared else "parsers of their own")
    ctx.nontrivial = s.switches > 0
