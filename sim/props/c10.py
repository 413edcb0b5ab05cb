"""C10: plugins are initialised in two stages, and failing ones never take others down."""
import sys
import types

ID = "C10"
QUICK = 6000
THOROUGH = 200000
RULE = (
    "one run = a simulated set of 0-6 installed plugins (module-only, with install function, non-callable, missing "
    "module/attribute, raising at a drawn stage) discovered by the real entry-points machinery, and 1-4 "
    "initialisations between which plugins break, recover, appear or vanish; the global order of load/install events, "
    "their effects on the hooks and the record of stages are checked. Non-trivial: a failing and a working plugin."
)
STATES = "hash of (behaviours of plugins in name order, stages recorded)"
REAL = ["xleash plugin initialisation", "pkg_resources entry-points", "the import system"]
STUB = ["plugin distributions and modules (in-memory)"]
PROBES = ["same_name", "load_fail", "install_fail", "load_only", "noncallable", "missing_attr", "missing_module", "reinit", "recovered", "none", "shared_module", "interrupted"]

GROUP = "verif.simulated.plugins"
ERRS = [ValueError, ImportError, KeyError, AttributeError, RuntimeError, OSError, AssertionError, SyntaxError, StopIteration]


class Plug:
    pass


def mine(p, key):
    return ("%s = %s%s" % (p.ep, p.mod, ":install" if p.attr else "")) in key and (
        p.attr or "%s:" % p.mod not in key
    ) and p.dist in key


class Finder:
    """Imports the simulated plugin modules."""

    def __init__(self, plugs, events, r):
        self.plugs, self.events, self.r = plugs, events, r

    def find_spec(self, name, path=None, target=None):
        p = next((p for p in self.plugs.values() if p.mod == name), None)
        if p is None or p.beh == "missing_module":
            return None
        from importlib.machinery import ModuleSpec

        return ModuleSpec(name, self)

    def create_module(self, spec):
        return types.ModuleType(spec.name)

    def exec_module(self, mod):
        p = next(p for p in self.plugs.values() if p.mod == mod.__name__)
        self.events.append(("load", p.mod))
        if p.beh == "load_raise":
            self.r.fault("plugin-load")
            raise p.exc("injected load failure")

        def install():
            self.events.append(("install", p.mod))
            if p.beh == "install_raise":
                self.r.fault("plugin-install")
                raise p.exc("injected install failure")
            return p.retval

        if p.beh == "noncallable":
            mod.install = 42
        elif p.beh != "missing_attr":
            mod.install = install


NONE = {}  # where the stages are recorded otherwise


def run(r):
    import pkg_resources
    from pandalone import xleash

    plugs = {}
    events = []
    finder = Finder(plugs, events, r)
    sys.meta_path.insert(0, finder)
    r.cleanups.append(lambda: sys.meta_path.remove(finder))

    def forget():
        for m in [m for m in sys.modules if m.startswith("verifplug_")]:
            del sys.modules[m]

    r.cleanups.append(forget)
    ws = pkg_resources.working_set

    class Meta(pkg_resources.EmptyProvider):
        lines = ""

        def has_metadata(self, name):
            return name == "entry_points.txt"

        def get_metadata(self, name):
            return self.lines

        def get_metadata_lines(self, name):
            return pkg_resources.yield_lines(self.lines)

    def undist():
        for key in [k for k in ws.by_key if k.startswith("verifdist")]:
            d = ws.by_key.pop(key)
            for ks in ws.entry_keys.values():
                if key in ks:
                    ks.remove(key)
            if d.location in ws.entries:
                ws.entries.remove(d.location)
            ws.entry_keys.pop(d.location, None)
            for m in [m for m in getattr(ws, "normalized_to_canonical_keys", {}) if m.startswith("verifdist")]:
                del ws.normalized_to_canonical_keys[m]

    r.cleanups.append(undist)

    def redist():
        undist()
        dists = {}
        for p in plugs.values():
            dists.setdefault(p.dist, []).append(p)
        for dn in sorted(dists, reverse=r.chance(50)):
            m = Meta()
            m.lines = "[%s]\n%s\n" % (
                GROUP,
                "\n".join("%s = %s%s" % (p.ep, p.mod, ":install" if p.attr else "") for p in dists[dn]),
            )
            ws.add(pkg_resources.Distribution(location="/nowhere/" + dn, project_name=dn, version="1", metadata=m))

    def gen(p):
        p.beh = r.weighted(
            [(5, "ok"), (3, "load_raise"), (3, "install_raise"), (1, "noncallable"), (1, "missing_attr"), (1, "missing_module")]
        )
        p.attr = p.beh in ("install_raise", "noncallable", "missing_attr") or r.chance(70)
        p.exc = r.pick(ERRS) if r.chance(94) else KeyboardInterrupt
        p.retval = r.pick([None, True, False, 7])

    record = lambda: getattr(xleash, "_plugins_installed", NONE)

    def unrecord():
        for k in [k for k in record() if "verifplug_" in k]:
            del record()[k]

    r.cleanups.append(unrecord)
    n_init = made = 0
    failed = set()
    for _ in r.ops(1, 6):
        r.tick()
        op = r.weighted([(3, "add"), (3, "init"), (2, "change"), (1, "drop")])
        if op == "add" or not plugs:
            for _ in range(1 + r.draw(4)):
                p = Plug()
                k, made = made, made + 1
                p.mod = p.name = "verifplug_%i" % k
                p.dist = "verifdist%i" % r.draw(3)
                p.ep = r.pick(["b", "a", "z", "m"])
                if any(q.dist == p.dist and q.ep == p.ep for q in plugs.values()):
                    p.ep += "_%i" % k  # (same names only in different distributions)
                elif any(q.ep == p.ep for q in plugs.values()):
                    r.probe("same_name")
                gen(p)
                p.of = None
                if plugs and r.chance(15):
                    # another entry point for the same module
                    q = plugs[r.pick(sorted(plugs))]
                    p.of = q.of or q
                    if p.of.attr:
                        p.mod = p.of.mod
                        p.ep = "%s_s%i" % (p.ep[0], k)
                        p.of.ep = "%s_o%i" % (p.of.ep[0], k)  # (their order must be settled by names)
                        r.probe("shared_module")
                    else:
                        p.of = None
                if p.name not in plugs:
                    plugs[p.name] = p
        elif op == "change":
            p = plugs[r.pick(sorted(plugs))]
            if not p.of and not any(q.of is p for q in plugs.values()):
                gen(p)
        elif op == "drop":
            p = plugs[r.pick(sorted(plugs))]
            if not any(q.of is p for q in plugs.values()):
                del plugs[p.name]
        if op != "init" and r.chance(40):
            continue
        forget()
        for p in plugs.values():
            if p.of:
                p.beh, p.attr, p.exc, p.retval = p.of.beh, p.of.attr, p.of.exc, p.of.retval
        redist()
        for k in [k for k in record() if "verifplug_" in k]:
            if not any(mine(p, k) for p in plugs.values()):
                del record()[k]
        del events[:]
        err = None
        before = dict(record())
        try:
            xleash._init_plugins(GROUP)
        except (Exception, KeyboardInterrupt) as ex:
            err = ex
        r.log("init", [(p.name, p.beh, p.attr) for p in plugs.values()], err and type(err).__name__, list(events))
        if not plugs:
            r.probe("none")
            r.check(isinstance(err, ValueError), "missed-error", "no plugins at all went unreported")
            continue
        stopper = [
            i for i, (what, mod) in enumerate(events)
            if any(p.mod == mod and p.exc is KeyboardInterrupt and p.beh == what + "_raise" for p in plugs.values())
        ]
        if stopper:
            r.probe("interrupted")
            r.state(("interrupted", len(events)))
            r.check(
                isinstance(err, KeyboardInterrupt) and stopper == [len(events) - 1], "interrupt-swallowed",
                lambda: "events %r went on after the user's interrupt, ended in %r" % (events, err),
            )
            for key, v in record().items():
                for p in plugs.values():
                    if mine(p, key) and ("load", p.mod) in events and [q.mod for q in plugs.values()].count(p.mod) == 1:
                        done = 2 if ("install", p.mod) in events[:-1] else 1
                        r.check(v <= done, "wrong-stage", lambda: "%s: recorded stage %r when interrupted: %r" % (p.name, v, events))
            continue
        r.check(err is None, "init-aborted", lambda: "initialisation died: %r" % err)
        # (order among same-named ones is as they happened)
        seen = {n: i for i, (_, n) in reversed(list(enumerate(events)))}
        order = sorted(plugs.values(), key=lambda p: (p.ep, seen.get(p.mod, 0)))
        loads, loaded = [], set()
        for p in order:
            if p.beh != "missing_module" and p.mod not in loaded:
                loads.append(("load", p.mod))
                if p.beh != "load_raise":
                    loaded.add(p.mod)
        inst = [("install", p.mod) for p in order if p.attr and p.beh in ("ok", "install_raise")]
        r.check(
            events[: len(loads)] == loads, "wrong-load-order",
            lambda: "events %r: must first load %r" % (events, loads),
        )
        r.check(
            events[len(loads):] == inst, "wrong-installs",
            lambda: "events %r: after loading must install %r" % (events, inst),
        )
        stages = {}
        for key, v in record().items():
            for p in order:
                if mine(p, key):
                    stages[p.name] = v
        for p in order:
            if p.beh in ("load_raise", "missing_module", "missing_attr") and (p.attr or p.beh != "missing_attr"):
                want = 0
            elif p.attr and p.beh == "ok":
                want = 2
            else:
                want = 1
            r.check(
                stages.get(p.name) == want or record() is NONE, "wrong-stage",
                lambda: "%s (%s): recorded stage %r, completed %r" % (p.name, p.beh, stages.get(p.name), want),
            )
            if p.beh == "ok":
                if p.name in failed:
                    r.probe("recovered")
                if not p.attr:
                    r.probe("load_only")
            else:
                failed.add(p.name)
                r.probe({"load_raise": "load_fail", "install_raise": "install_fail"}.get(p.beh, p.beh))
        for k, v in before.items():
            if "verifplug_" not in k:
                r.check(record().get(k) == v, "record-lost", lambda: "record of %s lost" % k)
        behs = [p.beh for p in order]
        r.state((behs, [p.attr for p in order]))
        if "ok" in behs and len(set(behs)) > 1:
            r.nontrivial = True
        n_init += 1
        if n_init > 1:
            r.probe("reinit")
