"""C05: opts, call-args and contexts are isolated per lasso."""
import copy
import json

from .. import xlworld

ID = "C05"
QUICK = 10000
THOROUGH = 300000
RULE = (
    "one run = one factory and 2-3 rangers (explicit, defaulted, the high-level function) sharing base-opts "
    "dicts and a filters-table, driven by 2-10 lassos (direct, recursive, some interrupted by faults) whose "
    "filters record what opts/args they see and then scribble on them; a model predicts what each must see, "
    "and every shared structure is compared with its snapshot after each step. Non-trivial: a scribble "
    "happened before another lasso."
)
STATES = "hash of (ranger kind, base opts, ref opts, scribble, pipeline) per lasso"
REAL = ["Ranger", "lasso()", "make_default_Ranger", "_parse", "pipe/recurse filters"]
STUB = ["backend", "probing filters (user plugins)"]
PROBES = ["scribbled", "recursed", "ref_opts", "defaults", "failed", "args_scribbled", "opts_only", "merged_defaults", "derived_opts", "own_base_opts"]

KEYS = ["a", "no_empty", "read", "x"]


def gen_opts(r, n=3):
    o = {}
    for _ in range(r.draw(n + 1)):
        k = r.pick(KEYS)
        o[k] = (
            r.pick([{"on_demand": False}, {"deep": {"er": [1]}}, {}]) if k == "read"
            else False if k == "no_empty" else r.pick([1, "s", [1, 2], {"n": 1}, None])
        )
    return copy.deepcopy(o)


def run(r):
    from pandalone import xleash

    w = xlworld.World(r)
    be = w.backend()
    inner = []  # (cell text, opts, args)
    grid = [["v0", 1, None], ["v1", 2, 3]]
    for i in range(1 + r.draw(2)):
        o = gen_opts(r, 2)
        args = [["in%i" % i, [i]]]
        d = {"func": r.pick(["spy", "scrib"]), "args": args}
        if o or r.chance(50):
            d["opts"] = o
        grid.append(["#R%iC2:%s" % (1 + i, json.dumps(d)), None, None])
        inner.append((i + 2, d))
    wb = "a.xlsx"
    w.disk[xlworld.book_url(wb)] = [("S1", grid)]

    seen = []

    def spy(ranger, lasso, *args, **kwds):
        seen.append((copy.deepcopy(dict(lasso.opts)), copy.deepcopy(list(args)), copy.deepcopy(kwds)))
        w.hit("filter")
        return lasso

    def scrib(ranger, lasso, *args, **kwds):
        spy(ranger, lasso, *args, **kwds)
        how = r.draw(5)
        if how != 1:
            for a in args:
                if isinstance(a, list):
                    a.append("scribbled")
                    for b in a:
                        if isinstance(b, list):
                            b.append("deep")
            for v in kwds.values():
                if isinstance(v, list):
                    v.append("scribbled")
            if args or kwds:
                r.probe("args_scribbled")
        o = lasso.opts
        if how != 2:
            o["scribble"] = 1
            if "a" in o and how == 3:
                o["a"] = "scribbled"
        for k in list(o):
            v = o[k]
            if isinstance(v, dict):
                v["scribbled"] = True
                for vv in v.values():
                    if isinstance(vv, dict):
                        vv["deep"] = True
            elif isinstance(v, list):
                v.append("scribbled")
        r.probe("scribbled")
        return lasso

    filters = {k: v for k, v in xleash.installed_filters.items()}
    filters["spy"] = {"func": spy}
    filters["scrib"] = {"func": scrib, "desc": "scribbles"}
    fsnap = {k: dict(v) for k, v in filters.items()}
    inst = {k: dict(v) for k, v in xleash.installed_filters.items()}
    defaults = copy.deepcopy(xleash.get_default_opts())
    r.check(
        defaults == {"lax": False, "verbose": False, "read": {"on_demand": True}},
        "defaults-polluted", lambda: "default opts: %r" % defaults,
    )
    sf = xleash.SheetsFactory([be])
    bases = [gen_opts(r), gen_opts(r)]
    snaps = copy.deepcopy(bases)
    rangers = [
        xleash.Ranger(sf, bases[0], filters),
        xleash.make_default_Ranger(sf, bases[1], filters),
        xleash.Ranger(sf, None, filters),
    ]

    def merged(b):
        d = copy.deepcopy(defaults)
        d.update(b)
        return d

    effective = [snaps[0], merged(snaps[1]), {}]
    scribbled = False
    for _ in r.ops(2, 10):
        r.tick()
        which = r.draw(6)
        ref_opts = gen_opts(r, 2) if r.chance(60) else None
        pipe = r.pick([["spy"], ["scrib"], ["scrib", "recurse"], ["recurse", "scrib"], ["spy", "recurse", "spy"], None])
        if r.chance(25):
            # a client works on opts it derived from the default ones
            over = gen_opts(r, 2) if r.chance(50) else None
            osnap = copy.deepcopy(over)
            mine = xleash.get_default_opts(over) if r.chance(50) else xleash.get_default_opts(overrides=over)
            exp = merged(osnap or {})
            r.check(mine == exp, "wrong-defaults", lambda: "get_default_opts(%r): %r" % (osnap, mine))
            mine["lax"] = "scribbled"
            if over is None or "read" not in over:
                mine["read"]["on_demand"] = "scribbled"
            mine["more"] = 1
            del mine["verbose"]
            r.check(over == osnap, "overrides-modified", lambda: "get_default_opts(%r) -> %r" % (osnap, over))
            r.probe("derived_opts")
        if r.chance(15):
            # a client configures its own ranger, made without opts
            own = xleash.Ranger(sf)
            r.check(own.base_opts == {}, "wrong-base-opts", lambda: "Ranger() has opts %r" % own.base_opts)
            own.base_opts.update(lax="own", more=[1])
            r.probe("own_base_opts")
        d = {}
        if pipe is not None:
            d["func"] = "pipe"
            d["args"] = [[f, ["arg", [i]], {"k": [i]}] if f != "recurse" else f for i, f in enumerate(pipe)]
        if ref_opts is not None:
            d["opts"] = ref_opts
            r.probe("ref_opts")
        if pipe is None and d:
            r.probe("opts_only")
        text = "%s#A1:A%i%s" % (wb, len(grid), ":" + json.dumps(d) if d else "")
        ctx = {"base_coords": xleash.Coords(0, 0)} if r.chance(30) else {}
        csnap = dict(ctx)
        # what each filter must see
        if which < 3:
            eff = effective[which]
            call = lambda: rangers[which].do_lasso(text, **ctx)
        elif which == 3:
            eff = defaults
            call = lambda: xleash.lasso(text, sheets_factory=sf, available_filters=filters, return_lasso=True, **ctx)
            r.probe("defaults")
        else:
            eff = merged(snaps[which - 4])
            call = lambda: xleash.lasso(
                text, sf, bases[which - 4], filters, return_lasso=True, **ctx)
            if snaps[which - 4]:
                r.probe("merged_defaults")
        want = []
        outer = copy.deepcopy(eff)
        outer.update(copy.deepcopy(ref_opts or {}))
        for i, f in enumerate(pipe or ()):
            if f == "recurse":
                for _, di in inner:
                    o = copy.deepcopy(eff)
                    o.update(copy.deepcopy(di.get("opts") or {}))
                    want.append((o, di["args"], {}))
                r.probe("recursed")
            else:
                want.append((outer, ["arg", [i]], {"k": [i]}))
        del seen[:]
        nf = len(w.fired)
        if r.chance(20):
            w.arm(r.pick(["read_states", "read_rect", "filter"]), r.draw(2))
        res = err = None
        try:
            res = call()
        except Exception as ex:
            err = ex
        fired = len(w.fired) > nf
        w.disarm()
        r.log("lasso", which, text, "fired=%s" % fired, err and type(err).__name__)
        if fired:
            r.probe("failed")
        else:
            r.check(err is None, "spurious-error", lambda: "%s: %r" % (text, err))
        n = len(seen) if fired else max(len(want), len(seen))
        for i in range(n):
            r.check(
                i < len(seen) and i < len(want) and seen[i] == _norm(want[i]), "wrong-opts-or-args",
                lambda: "%s, base %r: filter #%i saw %r, must see %r"
                % (text, eff, i, seen[i] if i < len(seen) else None, want[i] if i < len(want) else None),
            )
        if res is not None and "scrib" not in (pipe or ()):
            r.check(
                dict(res.opts) == outer, "wrong-result-opts",
                lambda: "%s: lasso has opts %r, not %r" % (text, dict(res.opts), outer),
            )
        r.check(bases == snaps, "base-opts-modified", lambda: "%s: caller's base-opts became %r" % (text, bases))
        r.check(
            xleash.get_default_opts() == defaults, "defaults-polluted",
            lambda: "%s: default opts became %r" % (text, xleash.get_default_opts()),
        )
        r.check(
            {k: dict(v) for k, v in filters.items()} == fsnap
            and {k: dict(v) for k, v in xleash.installed_filters.items()} == inst,
            "filters-modified", lambda: "%s: filters table changed" % text,
        )
        r.check(ctx == csnap, "context-modified", lambda: "%s: context became %r" % (text, ctx))
        r.state((which, sorted(map(repr, eff.items())), repr(ref_opts), pipe, fired))
        if scribbled:
            r.nontrivial = True
        if "scrib" in (pipe or ()):
            scribbled = True
    sf.close()


def _norm(t):
    return (t[0], list(t[1]), dict(t[2]))
