"""C07: loading an extension definition is all-or-error over a faulty network and disk."""
import errno

from .. import common, model, net
from ..sched import Scheduler

ID = "C07"
CONFIGS = [("file", 2), ("url", 3), ("threads", 2)]
RUNS = {"quick": 2400, "thorough": 60000}
RULE = ("one case = 1-3 random extension definitions loaded from simulated files, file: URLs or a simulated HTTP server, each "
        "several times, under connection failures, HTTP errors, responses cut at a drawn byte (with or without a declared "
        "length), resets, delays, read errors, truncated files and short reads, in one thread or several; non-trivial = a "
        "fault fired or a preemption happened; distinct = different event log")
STATE_MEASURE = "hash of (source, fault kind, cut bucket, outcome) or the sequence of preemptions"
REAL = common.REAL + ["urllib.request, http.client"]
STUB = ["TCP connections and the HTTP server's answers", "name resolution", "raw file layer", "thread scheduler", "clock"]
ASSUMPTIONS = common.BASE_ASSUMPTIONS + [common.THREAD_ASSUMPTION, "definitions name each attribute once per level",
                                         "only http: and file: URLs are simulated"]
TYPES = ["string", "date", "int", "float", "boolean", "id"]
LEVELS = ["log", "trace", "event", "meta"]


class encoding:
    """How a definition is stored: characters the encoding lacks become references."""

    def __init__(self, c):
        self.name = c.weighted("plan", [(5, "utf-8"), (1, "utf-8-sig"), (1, "utf-16"), (1, "iso-8859-1"), (1, "us-ascii")])
        said = {"utf-8": 'UTF-8', "utf-8-sig": 'UTF-8', "utf-16": 'UTF-16', "iso-8859-1": 'ISO-8859-1', "us-ascii": 'US-ASCII'}[self.name]
        self.declaration = '<?xml version="1.0" encoding="%s" ?>\n' % said
        if self.name[:3] == "utf" and c.draw("plan", 4) == 3:
            self.declaration = '<?xml version="1.0"?>\n'

    def encode(self, text):
        return text.encode(self.name, "xmlcharrefreplace")


def definition(c, n):
    """-> (spec, text).  spec: name, prefix, uri, {level: {key: type}}, {(mapping, key): alias}"""
    d = lambda k: c.draw("plan", k)
    prefix = c.pick("plan", ["p", "ext", "Meta", "x"]) + str(n)
    name = c.pick("plan", ["Ext", "Größe", "A & B", "日本"]) + str(n)
    uri = "http://sim%d.org/%s%d.xesext" % (d(2), c.pick("plan", ["e", "log", "a-b"]), n)
    levels, aliases, repeated, out = {}, {}, set(), []
    case = (lambda s: s.upper() if d(12) == 11 else s)
    enc = encoding(c)
    out.append(enc.declaration)
    if d(3) == 0:
        out.append("<!-- a definition -->\n")
    out.append('<xesextension name="%s" prefix="%s" uri="%s">\n' % (model.esc(name), prefix, uri))
    if d(16) == 15:
        out.append("<!-- %s -->\n" % ("a long introduction " * c.pick("plan", [250, 900, 3500, 8000])))
    order = c.shuffle("plan", LEVELS) if d(3) == 0 else LEVELS
    blocks = [(level, 0, 5) for level in order]
    if d(4) == 3:                   # a level may come in several blocks, in any order
        blocks = c.shuffle("plan", [(level, k * 3, 3) for level in LEVELS for k in range(1 + d(3))])
    for level, first, most in blocks:
        keys = levels.setdefault(level, {})
        if d(4) == 0:
            if d(2):
                out.append("<%s/>\n" % level)
            continue
        tag = case(level)
        out.append("<%s>\n" % tag)
        for i in range(first, first + d(most)):
            key = c.pick("plan", ["a%d" % i, "key%d" % i, "é%d" % i, "n&%d" % i, "with space %d" % i, " lead%d" % i, "trail%d " % i])
            typ = c.pick("plan", TYPES)
            full = "%s:%s" % (prefix, key)
            keys[full] = typ
            t = case(typ)
            out.append('\t<%s key="%s"' % (t, model.esc(key)))
            al = d(4)
            if al == 0:
                out.append("/>\n")
            else:
                out.append(">\n")
                for j in range(al):
                    mapping = c.pick("plan", ["EN", "DE", "FR", "X%d" % n, "en", "de "])
                    alias = "%s %s %s %d" % (c.pick("plan", ["Name", "Naam", "<名>"]), level, key, j)
                    if d(10) == 9:
                        alias = c.pick("plan", [" " + alias, alias + "  ", "", " "])
                    if (mapping, full) in aliases:
                        repeated.add((mapping, full))
                    aliases[(mapping, full)] = alias
                    out.append('\t\t<%s mapping="%s" name="%s"/>\n' % (case("alias"), mapping, model.esc(alias)))
                out.append("\t</%s>\n" % t)
        out.append("</%s>\n" % tag)
    out.append("</xesextension>\n")
    return {"name": name, "prefix": prefix, "uri": uri, "levels": levels, "aliases": aliases, "repeated": repeated}, enc.encode("".join(out))


def problem(spec, e):
    if type(e).__name__ != "XExtension":
        return "not an extension: %r" % (e,)
    if (e.get_name(), e.get_prefix(), e.get_uri().geturl()) != (spec["name"], spec["prefix"], spec["uri"]):
        return "name, prefix or uri %r" % ((e.get_name(), e.get_prefix(), e.get_uri().geturl()),)
    union = set()
    for level in LEVELS:
        attrs = list(getattr(e, "get_%s_attributes" % level)())
        got = {a.get_key(): model.type_of(a) for a in attrs}
        want = spec["levels"].get(level, {})
        if got != want or len(attrs) != len(want):
            return "%s attributes are %r instead of %r" % (level, sorted(got.items()), sorted(want.items()))
        for a in attrs:
            if a.get_extension() is not e:
                return "attribute %r does not name this extension" % a.get_key()
        union |= set(want)
    if {a.get_key() for a in e.get_defined_attributes()} != union:
        return "defined attributes %r instead of %r" % (sorted(a.get_key() for a in e.get_defined_attributes()), sorted(union))
    from opyenxes.info.XGlobalAttributeNameMap import XGlobalAttributeNameMap
    for (mapping, key), alias in sorted(spec["aliases"].items()):
        got = XGlobalAttributeNameMap().get_mapping(mapping).map(key)
        if got != alias:
            return "alias of %r in %s is %r instead of %r" % (key, mapping, got, alias)
    return None


def run(ctx):
    from opyenxes.extension.XExtensionParser import XExtensionParser
    c = ctx.c
    fs = common.new_fs(ctx)
    ctx.net = nt = net.Net(ctx)
    nt.chunked = (0.0, 0.3, 0.9)[c.draw("plan", 3)]
    nt.length_header = bool(c.draw("plan", 3))
    nt.delay = c.draw("plan", 3) * 5_000_000
    fs.short_reads = (0.0, 0.3, 0.9)[c.draw("plan", 3)]
    fs.buffer_size = (0, 16, 200)[c.draw("plan", 3)]
    fs.locale = c.weighted("plan", common.LOCALES)
    fs.active = True
    defs = [definition(c, i) for i in range(2 + c.draw("plan", 2) if ctx.config == "threads" else 1 + c.draw("plan", 2))]
    places = []
    for i, (spec, data) in enumerate(defs):
        path = fs.put("d%d.xesext" % i, data)
        nt.pages["http://host/d%d.xesext" % i] = data
        nt.pages[spec["uri"]] = data
        places.append((path, "file://" + path, "http://host/d%d.xesext" % i))
    ctx.sample = "%s: %s" % (ctx.config, [(s["prefix"], s["levels"]) for s, _ in defs])

    if ctx.config == "threads":
        s = Scheduler(ctx)
        got = []

        def body(i, how):
            def f():
                for k in how:
                    got.append((i, k, XExtensionParser().parse(places[i][k])))
            return f
        for i in range(len(defs)):
            s.spawn("t%d" % i, body(i, [c.draw("plan", 3) for _ in range(1 + c.draw("plan", 2))]))
        s.run()
        for t in s.tasks:
            if t.exc is not None:
                raise t.exc
        for i, k, e in got:
            ctx.ops += 1
            p = problem(defs[i][0], e)
            ctx.check(p is None, "incomplete", lambda: "definition %d loaded by one of several threads: %s" % (i, p))
        ctx.nontrivial = s.switches > 0
        return

    for step in range(2 + c.draw("plan", 4)):
        i = c.draw("plan", len(defs))
        spec, data = defs[i]
        path, furl, url = places[i]
        faulty = bool(c.draw("plan", 4))
        cut = None
        kind = "none"
        n_req = len(nt.requests)
        local = ctx.config == "file"
        if local:
            where = furl if c.draw("plan", 4) == 3 else path
            if faulty:
                kind = c.pick("fault", ["truncated", "EIO-at", "EIO", "missing", "open"])
                cut = c.draw("fault", len(data))
                if kind == "truncated":
                    fs.put("d%d.xesext" % i, data[:cut])
                    ctx.fired("damage:cut")
                elif kind == "EIO-at":
                    fs.fail_read_at = cut
                elif kind == "EIO":
                    fs.p_eio_read = 0.5
                elif kind == "open":
                    fs.fail_open_in = c.draw("fault", 2)
                else:
                    where = fs.p("nowhere.xesext") if c.draw("fault", 2) else fs.root
                    ctx.fired("open:ENOENT" if where != fs.root else "open:directory")
            nt.next_faults = [net.Fault("dns")] * 3         # there is no network
        else:
            where = url
            fault = net.Fault()
            if faulty:
                kind = c.pick("fault", ["cut", "reset", "refused", "dns", "timeout", "unreachable", "status"])
                cut = c.draw("fault", len(data) + 1)
                fault = net.Fault(kind, cut=cut, status=c.pick("fault", [
                    "404 Not Found", "500 Internal Server Error", "503 Service Unavailable", "302 Found", "204 No Content", "403 Forbidden"]))
            nt.next_faults = [fault]
        before = sum(ctx.faults.get(k, 0) for k in ctx.faults if "host" not in k and "short" not in k)
        error = None
        e = None
        try:
            e = XExtensionParser().parse(where)
        except Exception as err:         # noqa: any refusal will do when something was wrong
            error = err
        fired = sum(ctx.faults.get(k, 0) for k in ctx.faults if "host" not in k and "short" not in k) > before or kind in ("truncated", "missing")
        ctx.ops += 1
        ctx.log(where, kind, cut, "raised" if error else e is not None)
        fs.fail_read_at, fs.p_eio_read, fs.fail_open_in = None, 0.0, None
        if kind == "truncated":
            fs.put("d%d.xesext" % i, data)
        if local:
            ctx.check(len(nt.next_faults) == 3, "needed-network", lambda: "loading a local definition opened a connection (%s)" % kind)
        if e is not None:
            p = problem(spec, e)
            ctx.check(p is None, "incomplete", lambda: "loaded from %s with fault %s%s: %s" % (
                "a file" if local else "a URL", kind, "" if cut is None else " at byte %d of %d" % (cut, len(data)), p))
            ctx.probe("complete-despite-" + kind)
        elif not fired:
            ctx.fail("refused", "a healthy definition was not loaded (%s): %r" % (where, error))
        else:
            ctx.probe("refused:%s" % kind)
        error = None
        ctx.state(local, kind, None if cut is None else 10 * cut // len(data), e is not None)
    nt.next_faults = [net.Fault("dns")] * 3 if ctx.config == "file" else []
    for i, (spec, data) in enumerate(defs):        # after any history of failures, healthy again
        e = XExtensionParser().parse(places[i][0] if ctx.config == "file" else places[i][2])
        ctx.ops += 1
        p = problem(spec, e)
        ctx.check(p is None, "incomplete", lambda: "loaded after failures: %s" % p)
    ctx.nontrivial = bool(ctx.faults)
