"""C08: the extension cache survives crashes, bad downloads and clock changes."""
import os
from urllib.parse import urlparse

from .. import common, lives, model, net
from ..sched import Scheduler
from . import c07

ID = "C08"
CONFIGS = [("history", 3), ("crash", 4), ("threads", 3)]
RUNS = {"quick": 1600, "thorough": 40000}
RULE = ("one case = a history of 1-4 simulated processes over one disk, each caching extensions from a simulated HTTP server, "
        "registering extensions itself and loading the cache, with failing and cut downloads, disk errors, full disk, death at "
        "a drawn disk operation or byte, power loss, clock steps around the thirty-day limit, damaged foreign files and any "
        "directory order; or several threads caching, loading and registering at once; checked against a model of what is "
        "durably cached; non-trivial = a fault fired, a process died, an entry expired or a preemption happened; distinct = "
        "different event log")
STATE_MEASURE = "hash of (sequence of operations with their faults and outcomes)"
REAL = common.REAL + ["urllib.request, http.client"]
STUB = ["TCP connections and the HTTP server's answers", "raw file layer, fsync, rename and directory listing order", "death and "
        "restart of the process", "file time stamps (taken from the simulated clock)", "thread scheduler", "clock"]
ASSUMPTIONS = common.BASE_ASSUMPTIONS + [
    common.THREAD_ASSUMPTION,
    "different extensions have different definition file names (last segment of the URI)",
    "a completed rename survives a power loss; unsynced contents may not",
    "no entry is within a second of thirty days of age"]
DAY = 86_400_000_000
LIMIT = 30 * DAY


def make(c, n, at=None):
    exts = []
    for i in range(n):
        base = "http://ext.org/%s%d" % (c.pick("plan", ["cached", "E", "my-ext"]), i)
        url = at or base + c.pick("plan", [".xesext", "", "/"])
        versions = []
        for v in range(2):
            levels = {}
            enc = c07.encoding(c)
            alias = c.pick("plan", ["Key", "Schl\u00fcssel", "\u9375"])
            aliases = {}
            out = [enc.declaration + '<xesextension name="X%d" prefix="x%d" uri="%s">\n' % (i, i, url)]
            for level in c07.LEVELS:
                keys = {}
                out.append("<%s>\n" % level)
                for k in range(c.draw("plan", 4) + (level == "event")):
                    typ = c.pick("plan", c07.TYPES)
                    keys["x%d:v%dk%d" % (i, v, k)] = typ
                    out.append('\t<%s key="v%dk%d"><alias mapping="EN" name="%s %d"/></%s>\n' % (typ, v, k, alias, k, typ))
                    aliases[("EN", "x%d:v%dk%d" % (i, v, k))] = "%s %d" % (alias, k)
                levels[level] = keys
                out.append("</%s>\n" % level)
            out.append("</xesextension>\n")
            if c.draw("plan", 3) == 0:
                out.append("<!-- %s -->\n" % ("padding " * c.draw("plan", 400)))
            versions.append(({"name": "X%d" % i, "prefix": "x%d" % i, "uri": url, "levels": levels, "aliases": aliases},
                             enc.encode("".join(out))))
        exts.append((url, versions))
    return exts


class World:
    """What is durably cached, as far as it is certain.  entry: url -> list of possible (version, mtime);
    version None = no entry."""

    def __init__(self, n):
        self.entries = [[(None, 0)] for _ in range(n)]


def run(ctx):
    c = ctx.c
    fs = common.new_fs(ctx)
    ctx.net = net.Net(ctx)
    ctx.net.chunked = (0.0, 0.5)[c.draw("plan", 2)]
    ctx.net.length_header = bool(c.draw("plan", 3))
    fs.permute_listing = bool(c.draw("plan", 2))
    fs.buffer_size = (0, 64, 500)[c.draw("plan", 3)]
    fs.journaling = True
    fs.locale = c.weighted("plan", common.LOCALES)
    exts = make(c, 1 + c.draw("plan", 3) + (c.draw("plan", 12) == 0) * (3 + c.draw("plan", 8)))
    world = World(len(exts))
    script = []
    threads = ctx.config == "threads"
    for k in range(1 + c.draw("plan", 3 if not threads else 2)):
        outcome, back = lives.life(ctx, lambda: one_life(ctx, exts, world, script, k, threads), "process %d" % k)
        if outcome == "exit":
            world, script = back
        else:
            with open_state(ctx) as f:
                world, script = f
            power = ctx.config == "crash" and bool(c_of(ctx).draw("fault", 2))
            fs.crash_image(power=power)
            script = script + [("died", "power" if power else "kill")]
        fs.stamp_mtimes()
        c_of(ctx)
        jump = c_of(ctx).pick("fault", [0, 0, DAY, 29 * DAY, LIMIT - 2_000_000, LIMIT + 2_000_000, 31 * DAY, -DAY, -40 * DAY, 400 * DAY])
        if jump:
            ctx.clock.step(jump)
            ctx.fired("clock:step")
            script = script + [("clock", jump // 1_000_000)]
    # the last process only loads, on healthy storage
    outcome, back = lives.life(ctx, lambda: final_life(ctx, exts, world), "last process")
    if outcome == "crash":
        ctx.fail("crash", "the last process died without a fault")
    if ctx.c.draw("fault", 4) == 3:      # what has been discarded stays away
        jump = ctx.c.pick("fault", [-40 * DAY, -400 * DAY, -DAY])
        ctx.clock.step(jump)
        ctx.fired("clock:step")
        script = script + [("clock", jump // 1_000_000)]
        world = back
        lives.life(ctx, lambda: final_life(ctx, exts, world), "process after the clock went back")
    ctx.sample = "%s: %s" % (ctx.config, script)
    ctx.state(*script)
    ctx.nontrivial = bool(ctx.faults) or threads


def c_of(ctx):
    return ctx.c        # the choices object is replaced when a life comes back


class open_state:
    """The model of a life that died, saved by it before each operation (not on the simulated disk)."""

    def __init__(self, ctx):
        self.path = ctx.root + ".model"

    def __enter__(self):
        import pickle
        with c08_open(self.path, "rb") as f:
            return pickle.load(f)

    def __exit__(self, *a):
        return None


def c08_open(path, mode):
    from ..disk import real_open
    return real_open(path, mode)


def save(ctx, world, script):
    import pickle
    with c08_open(ctx.root + ".model", "wb") as f:
        pickle.dump((world, script), f)


def folder():
    from opyenxes.utils.XRuntimeUtils import XRuntimeUtils
    return XRuntimeUtils().get_extension_cache_folder()


def available(ctx, exts, i, quiet=True):
    """Version of extension i this process offers (None: none); anything incomplete is a violation."""
    from opyenxes.extension.XExtensionManager import XExtensionManager
    m = XExtensionManager()
    url, versions = exts[i]
    e = m.get_by_uri(urlparse(url))
    ctx.check(not quiet or e is None and m.get_by_name("X%d" % i) is None and m.get_by_prefix("x%d" % i) is None or
              e is not None and m.get_by_name(e.get_name()) is e and m.get_by_prefix(e.get_prefix()) is e, "lookups",
              lambda: "lookups of cached extension %d disagree" % i)
    if e is None:
        return None
    if getattr(e, "sim_own", False):
        return "own"
    problems = []
    for v, (spec, _) in enumerate(versions):
        p = c07.problem(spec, e)
        if p is None:
            return v
        problems.append(p)
    ctx.fail("broken-extension", "the available extension %d is no complete version: %s" % (i, problems[0]))


def load(ctx, exts, world, have, bad=()):
    """Load the cache and compare with the model.  have: what this process had registered before."""
    from opyenxes.extension.XExtensionManager import XExtensionManager
    now = ctx.clock.wall
    XExtensionManager().load_extension_cache()
    ctx.ops += 1
    for i in range(len(exts)):
        got = available(ctx, exts, i)
        fits = []
        for v, mtime in world.entries[i]:
            old = v is not None and now - mtime > LIMIT
            want = have[i] if have[i] is not None else None if v is None or old or i in bad else v
            if got == want:
                fits.append((None, 0) if old else (v, mtime))
        ctx.check(fits, "wrong-extensions", lambda: "after loading the cache, extension %d is available as %r; had %r before, the cache "
                  "may hold (version, age in days) %r%s" % (i, got, have[i], [(v, v is not None and round((now - m) / DAY, 5))
                                                             for v, m in world.entries[i]], ", its file is unreadable" if i in bad else ""))
        if any(v is None and world.entries[i][k][0] is not None for k, (v, _) in enumerate(fits[:len(world.entries[i])])):
            ctx.probe("expired")
        if got is not None and have[i] is None:
            ctx.probe("loaded-version-%s" % got)
        world.entries[i] = fits
        have[i] = got


def one_life(ctx, exts, world, script, k, threads):
    from opyenxes.extension.XExtension import XExtension
    from opyenxes.extension.XExtensionManager import XExtensionManager
    c, fs = ctx.c, ctx.fs
    cache = folder()
    have = [None] * len(exts)
    if k == 0 and c.draw("plan", 3) == 0:       # what other programs or old versions left behind
        what = c.draw("fault", 5)
        junk = (b"", b"<xesextension", b"\x00\x01\x02", b"<html>login</html>", b"<xesextension name='N'/>")[what]
        rel = os.path.relpath(cache, fs.root)
        fs.put(rel + "/0junk.xesext", junk)
        fs.put(rel + "/readme.txt", b"hello")
        if what == 0:
            os.makedirs(cache + "/folder.xesext", exist_ok=True)
        ctx.fired("foreign:junk")
    fs.stamp_mtimes()
    fs.active = True

    def own(i):
        k = c.draw("plan", 4) if not threads else 0     # the program's own may differ in name or prefix
        e = XExtension("%s%d" % (("X", "Mine", "X", "Mine")[k], i), "%s%d" % (("x", "x", "mine", "mine")[k], i), urlparse(exts[i][0]))
        e.sim_own = True
        return e

    if threads:
        return in_threads(ctx, exts, world, script, have, own)

    if k == 0 and len(exts) > 4:        # a cache that holds a lot
        for i, (url, versions) in enumerate(exts):
            ctx.net.pages[url] = versions[0][1]
            XExtensionManager().cache_extension(urlparse(url))
            fs.stamp_mtimes()
            world.entries[i] = [(0, ctx.clock.wall)]
        script.append(("cached", len(exts)))
        ctx.probe("crowd")
    # the process before died while it cached something: now the other version of it, undisturbed
    again = script[-2] if len(script) > 1 and script[-2][0] == "cache" and script[-2][-1] == "died" and c.draw("plan", 2) else None
    for step in range(1 + c.draw("plan", 4)):
        op = c.pick("plan", ["cache", "cache", "cache", "load", "register", "clock"])
        i = c.draw("plan", len(exts))
        if again:
            op, i = "cache", again[1]
        url, versions = exts[i]
        if op == "register":
            XExtensionManager().register(own(i))
            have[i] = "own"
            script.append(("register", i))
        elif op == "clock":
            d = c.pick("fault", [DAY, 29 * DAY, LIMIT - 2_000_000, LIMIT + 2_000_000, 31 * DAY, -DAY, -31 * DAY, 3_600_000_000])
            ctx.clock.step(d)
            ctx.fired("clock:step")
            script.append(("clock", d // 1_000_000))
        elif op == "load":
            save(ctx, world, script + [("load", "died")])
            if ctx.config == "crash" and c.draw("fault", 5) == 4:
                fs.crash_at_op = c.draw("fault", 6)
            bad = ()
            if ctx.config == "history" and c.draw("fault", 4) == 3:
                files = [f for f in fs.all_files() if f.endswith(".xesext")]
                if files:
                    f = c.pick("fault", files)
                    if c.draw("fault", 3) == 2:
                        fs.shut_paths = {f}
                    else:
                        fs.bad_paths = {f}
                    bad = {j for j, (u, _) in enumerate(exts) if file_of(u) == os.path.basename(f)}
            # a process that dies while loading may have discarded old entries
            unsure = World(0)
            unsure.entries = [list(dict.fromkeys(x + [(None, 0)] if any(v is not None and ctx.clock.wall - t > LIMIT
                                                                       for v, t in x) else x)) for x in world.entries]
            save(ctx, unsure, script + [("load", "died")])
            load(ctx, exts, world, have, bad)
            fs.bad_paths = fs.shut_paths = set()
            fs.crash_at_op = None
            script.append(("load", tuple(have), tuple(sorted(bad))))
        else:
            v = c.draw("plan", 2) if not again else 1 - again[2]
            spec, data = versions[v]
            ctx.net.pages[url] = data
            fault, disk = net.Fault(), "none"
            if c.draw("plan", 3) and not again:
                which = c.draw("fault", 3 if ctx.config == "history" else 5)
                if which == 0:
                    kind = c.pick("fault", ["cut", "reset", "refused", "dns", "timeout", "status"])
                    fault = net.Fault(kind, cut=c.draw("fault", len(data) + 1), status=c.pick("fault", [
                        "404 Not Found", "500 Internal Server Error", "503 Service Unavailable"]))
                elif which == 1:
                    disk = "full"
                    fs.capacity = c.draw("fault", len(data) + 20)
                elif which == 2:
                    disk = "eio"
                    if c.draw("fault", 3) == 2:
                        fs.fail_open_in = c.draw("fault", 2)
                    else:
                        fs.p_eio_write = 0.5
                        fs.p_eio_sync = 0.5
                elif which == 3:
                    disk = "die-at-op"
                    fs.crash_at_op = c.draw("fault", 10)
                else:
                    disk = "die-at-byte"
                    fs.crash_after_writes = c.draw("fault", len(data) + 1)
            again = None
            ctx.net.next_faults = [fault]
            before = dict(ctx.faults)
            new = list(dict.fromkeys(world.entries[i] + [(v, ctx.clock.wall)]))
            unsure = World(0)
            unsure.entries = world.entries[:i] + [new] + world.entries[i + 1:]
            save(ctx, unsure, script + [("cache", i, v, "died")])
            error = None
            try:
                XExtensionManager().cache_extension(urlparse(url))
            except Exception as e:      # noqa: how a failure is reported is not laid down
                error = e
            ctx.ops += 1
            fs.capacity = fs.crash_at_op = fs.crash_after_writes = fs.fail_open_in = None
            fs.p_eio_write = fs.p_eio_sync = 0.0
            ctx.net.next_faults = []
            fired = any(n > before.get(x, 0) for x, n in ctx.faults.items() if "short" not in x)
            if not fired and error is not None:
                raise error
            fs.stamp_mtimes()
            if fired:
                # the old entry, or the complete new one
                world.entries[i] = list(dict.fromkeys(world.entries[i] + [(v, ctx.clock.wall)]))
            else:
                world.entries[i] = [(v, ctx.clock.wall)]
            error = None
            script.append(("cache", i, v, fault.kind, disk, fired))
            ctx.probe("cache:%s:%s:%s" % (fault.kind, disk, "faulty" if fired else "clean"))
        save(ctx, world, script)
    fs.active = False
    return world, script


def file_of(url):
    u = url[:-1] if url.endswith("/") else url
    name = u[u.rindex("/") + 1:]
    return name if name.endswith(".xesext") else name + ".xesext"


def in_threads(ctx, exts, world, script, have, own):
    from opyenxes.extension.XExtensionManager import XExtensionManager
    c = ctx.c
    now = ctx.clock.wall
    if c.draw("plan", 2):
        # a warm cache before the threads start
        for i, (url, versions) in enumerate(exts):
            if c.draw("plan", 2):
                ctx.net.pages[url] = versions[0][1]
                XExtensionManager().cache_extension(urlparse(url))
                ctx.fs.stamp_mtimes()
                now = ctx.clock.wall
                world.entries[i] = [(0, now)]
        if c.draw("plan", 2):       # what is there has expired when the threads start
            ctx.clock.step(c.pick("fault", [LIMIT + 2_000_000, 31 * DAY, 400 * DAY]))
            ctx.fired("clock:step")
            now = ctx.clock.wall
    for i, (url, versions) in enumerate(exts):
        ctx.net.pages[url] = versions[1][1]
    s = Scheduler(ctx)
    cached, registered, loads = set(), {}, []
    ended = []

    def body(ops):
        def f():
            for op, i in ops:
                if op == "cache":
                    cached.add(i)
                    XExtensionManager().cache_extension(urlparse(exts[i][0]))
                    ended.append(("cached", i))
                elif op == "register":
                    e = own(i)
                    registered.setdefault(i, []).append(e)
                    XExtensionManager().register(e)
                    got = XExtensionManager().get_by_uri(urlparse(exts[i][0]))
                    ctx.check(got in registered[i] and getattr(got, "sim_own", False), "replaced",
                              lambda: "an extension registered by the program was replaced by a cached one")
                    ended.append(("registered", i))
                else:
                    first = {j for o, j in list(ended) if o == "cached"} | \
                        {j for j, x in enumerate(world.entries) if x[0][0] is not None and now - x[0][1] <= LIMIT}
                    XExtensionManager().load_extension_cache()
                    for j in first:
                        ctx.check(available(ctx, exts, j, quiet=False) is not None, "wrong-extensions",
                                  lambda: "extension %d was cached before the load began and is not available after it" % j)
                    loads.append(first)
        return f
    busy = c.draw("plan", 2)            # all of them cache and load one extension
    for t in range(2 + c.draw("plan", 2)):
        if busy:
            s.spawn("t%d" % t, body([("cache", 0), ("load", 0)] * (1 + c.draw("plan", 3))))
            continue
        s.spawn("t%d" % t, body([(c.pick("plan", ["cache", "load", "load", "register"]), c.draw("plan", len(exts)))
                                 for _ in range(1 + c.draw("plan", 3))]))
    s.run()
    for t in s.tasks:
        if t.exc is not None:
            raise t.exc
    ctx.fs.stamp_mtimes()
    m = XExtensionManager()
    for i in range(len(exts)):
        got = available(ctx, exts, i)
        if i in registered:
            ctx.check(got == "own", "replaced", lambda: "extension %d, registered by the program, is available as %r" % (i, got))
        have[i] = got
        if i in cached:
            world.entries[i] = [(1, ctx.clock.wall)]
    size = 8 + sum(1 for x in have if x is not None)
    ctx.check(m.get_by_index(size - 1) is not None and m.get_by_index(size) is None, "doubled",
              lambda: "the manager does not hold exactly %d extensions" % size)
    ctx.fs.active = False
    load(ctx, exts, world, have)
    script.append(("threads", sorted(cached), sorted(registered), len(loads)))
    return world, script


def final_life(ctx, exts, world):
    ctx.fs.active = False
    have = [None] * len(exts)
    load(ctx, exts, world, have)
    load(ctx, exts, world, have)        # loading again changes nothing
    return world
