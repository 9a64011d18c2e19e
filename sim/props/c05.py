"""C05: shared services exist once and are complete when first seen."""
import importlib

from .. import common
from ..sched import Scheduler

ID = "C05"
CONFIGS = [("race", 5), ("interrupted", 3), ("bytecode", 1)]
RUNS = {"quick": 2400, "thorough": 60000}
RULE = ("one case = 2-4 threads of a pristine process, each asking for 1-5 of the 18 shared services for the first time "
        "(or making a first use that needs them), under a seeded schedule; in 'interrupted' one or two threads also get an "
        "asynchronous exception inside a first request and ask again; non-trivial = at least one preemption inside the "
        "library or one injected exception; distinct = different event log")
REAL = common.REAL
STUB = ["thread scheduler", "library locks (simulated)", "clock", "entropy source"]
ASSUMPTIONS = common.BASE_ASSUMPTIONS + [common.THREAD_ASSUMPTION,
                                         "asynchronous exceptions arrive before a source line of the library, not inside "
                                         "lock operations, the exit of a with block or a finally block"]

SERVICES = {
    "manager": "opyenxes.extension.XExtensionManager", "concept": "opyenxes.extension.std.XConceptExtension",
    "cost": "opyenxes.extension.std.XCostExtension", "identity": "opyenxes.extension.std.XIdentityExtension",
    "lifecycle": "opyenxes.extension.std.XLifecycleExtension", "micro": "opyenxes.extension.std.XMicroExtension",
    "org": "opyenxes.extension.std.XOrganizationalExtension", "semantic": "opyenxes.extension.std.XSemanticExtension",
    "time": "opyenxes.extension.std.XTimeExtension", "extparser": "opyenxes.extension.XExtensionParser",
    "factories": "opyenxes.factory.XFactoryRegistry", "parsers": "opyenxes.data_in.XParserRegistry",
    "serializers": "opyenxes.data_out.XSerializerRegistry", "names": "opyenxes.info.XGlobalAttributeNameMap",
    "ids": "opyenxes.id.XIDFactory",
}
COST = {"amount": "XCostAmount", "driver": "XCostDriver", "ctype": "XCostType"}
KINDS = list(SERVICES) + list(COST)

L, C, D, I, T = "string", "float", "int", "id", "date"
# name, prefix, {level: {key: type}}
EXT = {
    "concept": ("Concept", {"log": {"concept:name": L}, "trace": {"concept:name": L},
                            "event": {"concept:name": L, "concept:instance": L}, "meta": {}}),
    "cost": ("Cost", {"log": {}, "trace": {"cost:currency": L, "cost:total": C},
                      "event": {"cost:amount": C, "cost:currency": L, "cost:driver": L, "cost:total": C, "cost:type": L},
                      "meta": {}}),
    "identity": ("Identity", {lv: {"identity:id": I} for lv in ("log", "trace", "event", "meta")}),
    "lifecycle": ("Lifecycle", {"log": {"lifecycle:model": L}, "trace": {}, "event": {"lifecycle:transition": L}, "meta": {}}),
    "micro": ("Micro", {"log": {}, "trace": {}, "event": {"micro:length": D, "micro:level": D, "micro:parentId": I},
                        "meta": {}}),
    "org": ("Organizational", {"log": {}, "trace": {},
                               "event": {"org:group": L, "org:resource": L, "org:role": L}, "meta": {}}),
    "semantic": ("Semantic", {lv: {"semantic:modelReference": L} for lv in ("log", "trace", "event", "meta")}),
    "time": ("Time", {"log": {}, "trace": {}, "event": {"time:timestamp": T}, "meta": {}}),
}
ALIASES = {      # the names of the standard attributes in every language
    "concept:instance": {"DE": "Instanz", "EN": "Instance", "ES": "Instancia", "FR": "Entité", "PT": "Instância"},
    "concept:name": {"DE": "Name", "EN": "Name", "ES": "Nombre", "FR": "Appellation", "PT": "Nome"},
    "cost:amount": {"EN": "Cost Amount"},
    "cost:currency": {"EN": "Currency of Cost"},
    "cost:driver": {"EN": "Cost Driver"},
    "cost:total": {"EN": "Total Cost"},
    "cost:type": {"EN": "Cost Type"},
    "identity:id": {"DE": "Identität", "EN": "Identity", "ES": "Identidad", "FR": "Identité", "PT": "Identidade"},
    "lifecycle:model": {"DE": "Lebenszyklus-Model", "EN": "Lifecycle Model", "ES": "Modelo de Ciclo de Vida", "FR": "Modèle du Cycle Vital", "PT": "Modelo do Ciclo de Vida"},
    "lifecycle:transition": {"DE": "Lebenszyklus-Transition", "EN": "Lifecycle Transition", "ES": "Transición en Ciclo de Vida", "FR": "Transition en Cycle Vital", "PT": "Transição do Ciclo de Vida"},
    "micro:length": {"EN": "Number of child events for this event"},
    "micro:level": {"EN": "Micro level of this event"},
    "micro:parentId": {"EN": "Id of parent event of this event"},
    "org:group": {"DE": "Gruppe", "EN": "Group", "ES": "Grupo", "FR": "Groupe", "PT": "Grupo"},
    "org:resource": {"DE": "Akteur", "EN": "Resource", "ES": "Recurso", "FR": "Agent", "PT": "Recurso"},
    "org:role": {"DE": "Rolle", "EN": "Role", "ES": "Papel", "FR": "Rôle", "PT": "Papel"},
    "semantic:modelReference": {"DE": "Ontologie-Modellreferenz", "EN": "Ontology Model Reference", "ES": "Referencia de Modelo Ontológico", "FR": "Référence au Modèle Ontologique", "PT": "Referência de Modelo Ontológico"},
    "time:timestamp": {"DE": "Zeitstempel", "EN": "Timestamp", "ES": "Timestamp", "FR": "Horodateur", "PT": "Timestamp"},
}
PARSERS = ["XMxmlGZIPParser", "XMxmlParser", "XesXmlGZIPParser", "XesXmlParser"]
SERIALIZERS = ["XMxmlGZIPSerializer", "XMxmlSerializer", "XesXmlGZIPSerializer", "XesXmlSerializer"]


def class_of(kind):
    if kind in COST:
        return getattr(importlib.import_module(SERVICES["cost"]), COST[kind])
    path = SERVICES[kind]
    return getattr(importlib.import_module(path), path.rsplit(".", 1)[1])


def extension_problem(kind, e):
    """What is missing from a standard extension, judged at the moment it was received."""
    from .. import model
    name, levels = EXT[kind]
    if e.get_name() != name or e.get_prefix() != kind:
        return "name %r prefix %r" % (e.get_name(), e.get_prefix())
    if e.get_uri().geturl() != "http://www.xes-standard.org/%s.xesext" % kind:
        return "uri %r" % (e.get_uri(),)
    seen = {}
    for level in ("log", "trace", "event", "meta"):
        got = {a.get_key(): model.type_of(a) for a in tuple(getattr(e, "get_%s_attributes" % level)())}
        if got != levels[level]:
            return "%s attributes %r, expected %r" % (level, got, levels[level])
        seen.update(got)
    got = {a.get_key() for a in tuple(e.get_defined_attributes())}
    if got != set(seen):
        return "defined attributes %r, expected %r" % (sorted(got), sorted(seen))
    from opyenxes.info.XGlobalAttributeNameMap import XGlobalAttributeNameMap
    names = XGlobalAttributeNameMap()
    for key in sorted(seen):
        for language, alias in ALIASES[key].items():
            got = names.get_mapping(language).map(key)
            if got != alias:
                return "the %s name of %r is %r instead of %r" % (language, key, got, alias)
    return None


def problem(kind, obj):
    """None if the service is completely set up."""
    if not isinstance(obj, class_of(kind)):
        return "not a %s but %r" % (kind, type(obj))
    if kind in EXT:
        return extension_problem(kind, obj)
    if kind == "manager":
        for i, prefix in enumerate(sorted(EXT)):
            e = obj.get_by_prefix(prefix)
            if e is None:
                return "prefix %r unknown" % prefix
            p = extension_problem(prefix, e)
            if p:
                return "%s: %s" % (prefix, p)
            if obj.get_by_uri(e.get_uri()) is not e or obj.get_by_name(e.get_name()) is not e or \
                    obj.get_by_index(obj.get_index(e)) is not e:
                return "lookups of %r disagree" % prefix
        if obj.get_by_index(7) is None or obj.get_by_index(8) is not None:
            return "does not hold exactly eight extensions"
    elif kind == "factories":
        d = obj.current_default()
        if d is None or d not in obj.get_available():
            return "default %r, available %r" % (d, obj.get_available())
    elif kind in ("parsers", "serializers"):
        want = PARSERS if kind == "parsers" else SERIALIZERS
        got = sorted(type(x).__name__ for x in obj.get_available())
        if got != want:
            return "entries %r" % (got,)
        d = obj.current_default()
        if d not in obj.get_available() or type(d).__name__ != ("XesXmlGZIPParser" if kind == "parsers" else
                                                                "XesXmlGZIPSerializer"):
            return "default %r" % (d,)
    elif kind == "names":
        if obj.get_standard_mapping() is None or obj.get_mapping("EN") is not obj.get_standard_mapping():
            return "standard mapping is not the EN mapping"
    elif kind == "ids":
        if obj.create_id() == obj.create_id():
            return "equal ids"
    return None


def use(kind):
    """A first use that reaches the service indirectly; returns the service object."""
    if kind == "factories":
        from opyenxes.data_in.XesXmlParser import XesXmlParser
        XesXmlParser()
    elif kind == "names":
        class_of("concept")()
    elif kind == "parsers":
        from opyenxes.data_in.XUniversalParser import XUniversalParser
        if not XUniversalParser().can_parse("a.xes"):
            return None
    elif kind == "ids":
        from opyenxes.factory.XFactory import XFactory
        XFactory().create_event()
    return class_of(kind)()


def run(ctx):
    from opyenxes.extension.XExtensionManager import XExtensionManager      # noqa: imported already
    c = ctx.c
    if ctx.config == "bytecode":
        from .. import sched
        sched.use_instructions()
    s = Scheduler(ctx)
    n = 2 + c.draw("plan", 3)
    pool = c.pick("plan", [KINDS, ["manager"], ["manager", "concept", "names"], list(EXT), ["parsers", "manager", "factories"],
                           ["cost", "amount", "driver", "ctype"], ["factories", "ids", "names", "extparser", "serializers"]])
    got = []            # (task, kind, object)
    interrupted = ctx.config == "interrupted"
    exc = [KeyboardInterrupt("simulated"), MemoryError("simulated")]
    used = set()

    def body(me, wants):
        def f():
            for kind, how in wants:
                try:
                    obj = use(kind) if how == 1 else class_of(kind)()
                except (KeyboardInterrupt, MemoryError) as e:
                    if "simulated" not in str(e):
                        raise
                    ctx.fired("interrupt:" + type(e).__name__)
                    ctx.probe("interrupted:" + str(s.tasks[me].injected).split(":")[0])
                    obj = class_of(kind)()
                got.append((me, kind, obj))
                ctx.log("got", me, kind)
                p = problem(kind, obj)
                ctx.check(p is None, "incomplete", lambda: "thread %d received %s before it was set up: %s" % (me, kind, p))
        return f
    for i in range(n):
        wants = [(c.pick("plan", pool), c.draw("plan", 3)) for _ in range(1 + c.draw("plan", 5))]
        used.update(k for k, _ in wants)
        t = s.spawn("t%d" % i, body(i, wants))
        if interrupted and (i == 0 or c.draw("plan", 2)):
            t.inject_at = 1 + c.draw("fault", (30, 150, 900)[c.draw("fault", 3)])
            t.inject_exc = exc[c.draw("fault", 2)]
    s.run()
    for t in s.tasks:
        if t.exc is not None:
            if isinstance(t.exc, (KeyboardInterrupt, MemoryError)) and "simulated" in str(t.exc):
                # it arrived while the thread was only examining what it had received
                ctx.fired("interrupt:" + type(t.exc).__name__)
                continue
            raise t.exc
    ctx.ops = len(got)
    first = {}
    for me, kind, obj in got:
        if kind in first:
            ctx.check(first[kind] is obj, "two-instances", lambda: "two different %s objects were handed out" % kind)
        first.setdefault(kind, obj)
    for kind in KINDS:                      # in every later request, complete, the same
        obj = class_of(kind)()
        if kind in first:
            ctx.check(obj is first[kind], "two-instances", lambda: "%s changed identity later" % kind)
        p = problem(kind, obj)
        ctx.check(p is None, "incomplete", lambda: "%s is incomplete afterwards: %s" % (kind, p))
        ctx.check(class_of(kind)() is obj, "two-instances", lambda: "%s is created again and again" % kind)
    m = class_of("manager")()
    for prefix in sorted(EXT):
        ctx.check(m.get_by_prefix(prefix) is class_of(prefix)(), "two-instances",
                  lambda: "the manager knows another %s extension" % prefix)
    ctx.sample = "%d threads, services %s" % (n, sorted(used))
    ctx.nontrivial = s.switches > 0 or bool(ctx.faults)
