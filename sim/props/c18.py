"""C18: threads doing unrelated work never notice each other."""
import os
import re
import shutil
import tempfile

from .. import pdworld, pmodref, threads, xlref, xlworld

ID = "C18"
QUICK = 24000
THOROUGH = 200000
RULE = (
    "one run = 2-3 threads, each with 1-3 jobs of its own (lassoing, recursive lassoing, mapping paths through a shared "
    "Pmod, building path-steps, validating and merging models, building components, encoding objects, unique filenames); "
    "jobs run first alone, then in real threads of which exactly one runs at a time, switched at lines of the code under test "
    "as the seed decides, sometimes with one thread killed midway; outcomes must be equal. Non-trivial: switched in the middle of 2 jobs."
)
STATES = "hash of (kinds of jobs, functions where threads got switched)"
REAL = ["xleash, mappings, pandata, components, utils", "threads of the interpreter"]
STUB = ["choice of the running thread", "locks made by the code under test", "spreadsheet backend (for some)"]
PROBES = ["lasso", "recurse", "opts", "parse", "map", "steps", "pandel", "component", "json", "unique", "shared_backend", "killed", "many_switches", "ranger", "focused", "eval", "pointers", "paths"]


def norm(x):
    return re.sub(r"0x[0-9a-f]+", "0x", x)


def show(v):
    import pandas as pd

    if isinstance(v, (pd.DataFrame, pd.Series)):
        return v.to_json()
    return norm(repr(v))


def job_lasso(r, ctx):
    from pandalone import xleash
    from pandalone.xleash.io.backend import ArraySheet

    grid = xlworld.gen_grid(r)
    dims = (len(grid), max([len(x) for x in grid] or [0]))
    refs = ["#" + (xlref.gen_ref(r, dims, filters=r.chance(50)).text or ":") for _ in range(1 + r.draw(3))]
    if r.chance(40):
        refs.append(r.pick(["#A1:..(D):", "#^^", "#:", '#A1:B2:["nope"]', "#A1(", "nosheet#A1", '#A1:B2:{"opts":{"lax":true},"func":"nope"}', '#:["pipe",["redim","numpy"]]', '#:"py"']))
    opts = r.pick([None, {"lax": True}, {"verbose": True}, {"zz": 1}])
    own = r.chance(50)
    if own:
        ctx.probe("ranger")
    if opts:
        ctx.probe("opts")

    def do():
        out = []
        kw = {}
        rg = xleash.make_default_Ranger(base_opts=dict(opts)) if own and opts else xleash.make_default_Ranger() if own else None
        for t in refs:
            sh = ArraySheet([list(x) for x in grid] if grid else [[]])
            try:
                if rg is not None:
                    res = rg.do_lasso(t, sheet=sh)
                    out.append((show(res.values), str(res.st), str(res.nd), str(sorted(res.opts.items()))))
                    out.append(rg.intermediate_lasso and norm(repr(rg.intermediate_lasso[0])))
                else:
                    out.append(show(xleash.lasso(t, sheet=sh, return_lasso=False)))
            except Exception as ex:
                out.append((type(ex).__name__, norm(str(ex))))
        return out

    return "lasso", do


def job_recurse(r, ctx):
    from pandalone import xleash

    grid = [["#A2", r.pick([1, "x"])], [r.pick(["#B3", "#B2:B3", 5]), r.pick([2, None])], [r.pick(["#nosheet!A1", "tx"]), "end"]]
    f = r.pick(['#A1:B2:["recurse"]', '#A1:B3:["recurse",[],{"depth":1}]', '#A1:["recurse"]', '#A1:B3:{"opts":{"lax":true},"func":"recurse"}'])

    def do():
        from pandalone.xleash.io.backend import ArraySheet

        sh = ArraySheet([list(x) for x in grid])
        try:
            return show(xleash.lasso(f, sheet=sh))
        except Exception as ex:
            return type(ex).__name__, norm(str(ex))

    return "recurse", do


def job_parse(r, ctx):
    from pandalone import xleash

    refs = [r.pick(["#" + x, "#" + x, '"#%s"' % x]) for x in [xlref.gen_ref(r, (4, 4), filters=r.chance(50)).text for _ in range(1 + r.draw(4))]] + [r.pick(["#", "x", "#A1:RZ", '"#a1:"', "a.xls#S!A1(L):..(RD):LURD:[1]"])]

    def do():
        out = []
        for t in refs:
            try:
                out.append(norm(repr(sorted(xleash.parse_xlref(t).items()))))
            except Exception as ex:
                out.append((type(ex).__name__, norm(str(ex))))
        return out

    return "parse", do


def job_shared_backend(r, ctx):
    """Own sheets-factory and ranger on the simulated backend shared by all."""
    from pandalone import xleash

    w, be = ctx.world
    texts = [r.pick(["a.xlsx#S!A1:B2", "b.xlsx#T!..(RD):", "a.xlsx#A2:", "zz.xlsx#A1", "b.xlsx#S!A1", "a.xlsx#1!A1",
                    'a.xlsx#S!A1:B2:["pipe",["tag","recurse"]]', 'b.xlsx#T!..(RD)::"tag"', 'a.xlsx#A2::["pipe",["recurse","tag"]]',
                    'a.xlsx#A2::["recurse",[],{"filters":["tag"]}]'])
             for _ in range(1 + r.draw(4))]
    mine = r.draw(1000)

    def tag(ranger, lasso, *args, **kwds):
        return [lasso.values, mine, ranger.base_opts.get("mine"), sorted(lasso.opts)]

    def do():
        sf = xleash.SheetsFactory([be])
        rg = xleash.Ranger(sf, {"mine": mine}, dict(xleash.installed_filters, tag={"func": tag}))
        out = []
        for t in texts:
            try:
                out.append(show(rg.do_lasso(t).values))
            except Exception as ex:
                out.append((type(ex).__name__, norm(str(ex))))
        sf.close()
        return out

    return "shared_backend", do


def job_map(r, ctx):
    pm = ctx.pmod
    paths = ["/".join(([""] if r.chance(50) else []) + [r.pick(pmodref.STEPS) for _ in range(1 + r.draw(4))]) for _ in range(1 + r.draw(5))]

    def do():
        return [pm.map_path(p) for p in paths] + list(pm.map_paths(paths)) + [repr(pm) == ctx.pmod_repr]

    return "map", do


def job_steps(r, ctx):
    from pandalone.mappings import Pstep, pmods_from_tuples

    own = r.chance(60)
    t = pmodref.gen_tuples(r)
    if own:
        # (names that tell whose they are)
        ctx.ndirs += 1
        t = t + [("~.*", r.pick([r"\g<0>_%i", "W%i"]) % ctx.ndirs), ("root/~.*", r"\g<0>_%i" % ctx.ndirs)]
    ops = [([r.pick(["a", "b", "c", "a1", "d"]) for _ in range(1 + r.draw(3))], r.pick([None, None, "R1"])) for _ in range(1 + r.draw(7))]

    def do():
        pm = pmods_from_tuples(t) if own else ctx.pmod
        p = pm.step() if r0 else Pstep("root", pm)
        for chain, nm in ops:
            n = p
            for x in chain[:-1]:
                n = getattr(n, x)
            if nm:
                setattr(n, chain[-1], nm)
            else:
                getattr(n, chain[-1])
        return sorted(map(str, p._paths())), norm(repr(p))

    r0 = r.chance(50)
    return "steps", do


def job_pandel(r, ctx):
    import copy

    from pandalone.pandata import Pandel

    schema = pdworld.gen_schema(r)
    subs = [pdworld.gen_value(r, schema, 8) for _ in range(1 + r.draw(3))]
    maybes = r.chance(50)

    class P(Pandel):
        def _get_json_schema(self, is_prevalidation=False):
            return copy.deepcopy(pdworld.loosen(schema) if is_prevalidation else schema)

    def do():
        p = P(curate_funcs=(lambda p: None,) * 2)
        for s in subs:
            p.add_submodel(copy.deepcopy(s))
        out = []
        if maybes:
            for err in p.build_iter():
                out.append((type(err).__name__, norm(str(getattr(err, "message", err)))))
        else:
            try:
                p.build()
            except Exception as ex:
                out.append((type(ex).__name__, norm(str(getattr(ex, "message", ex)))))
        return out, show(p.model)

    return "pandel", do


def job_component(r, ctx):
    from pandalone.components import Assembly, FuncComponent

    acc = [(r.draw(2), [r.pick(["a", "b", "c"]) for _ in range(1 + r.draw(2))]) for _ in range(1 + r.draw(4))]
    use = r.chance(60)

    def do():
        def cfunc_one(comp, vtree=None):
            for io, ch in acc:
                n = comp.pout() if io else comp.pinp()
                for x in ch:
                    n = getattr(n, x)

        c = FuncComponent(cfunc_one)
        a = Assembly([c])
        a._build(ctx.pmod if use else None)
        return sorted(map(str, c._inp)), sorted(map(str, c._out)), sorted(map(str, a._inp)), sorted(map(str, a._out))

    return "component", do


def job_json(r, ctx):
    import json

    from pandalone.pandata import JSONCodec

    o = [r.draw(300) for _ in range(r.draw(30))], "\r\n" * r.draw(5)

    def do():
        return json.loads(json.dumps(o, cls=JSONCodec.Encoder), cls=JSONCodec.Decoder)

    return "json", do


def job_unique(r, ctx):
    from pandalone import utils

    ctx.ndirs += 1
    d = os.path.join(ctx.root, "d%i" % ctx.ndirs)
    os.mkdir(d)
    for i in range(r.draw(3)):
        open(os.path.join(d, "f%s.txt" % (i or "")), "w").close()
    n = 1 + r.draw(3)

    def do():
        out = []
        for _ in range(n):
            out.append(os.path.basename(utils.make_unique_filename(os.path.join(d, "f.txt"))))
        out.append(os.path.basename(utils.ensure_dir_exists(os.path.join(d, "sub", "x")) or ""))
        return out

    return "unique", do


def job_eval(r, ctx):
    """Cells and filters with python expressions."""
    from pandalone import xleash

    k = r.draw(1000)
    grid = [["%i + 1" % k, "elval * 2"], [r.pick(["1 +", "xleash.lasso('#B2', sheet=lasso.sheet)", "[%i]" % k]), k]]
    t = r.pick(['#A1:B2:["pyeval"]', '#A1:A2:["pyeval"]', '#B2:["py", ["lasso.values + %i"]]' % k, '#A1:B2:["pyeval", [], {"eval_all": true}]',
                '#A1:B2:["py", ["[lasso.xl_ref, lasso.values, zz]"]]', '#A1:B2:["pipe", ["pyeval", ["py", "[%i, lasso.values]"]]]' % k])

    def do():
        from pandalone.xleash.io.backend import ArraySheet

        try:
            return show(xleash.lasso(t, sheet=ArraySheet([list(x) for x in grid])))
        except Exception as ex:
            return type(ex).__name__, norm(str(ex))

    return "eval", do


def job_pointers(r, ctx):
    from pandalone import pandata

    k = r.draw(100)
    paths = [r.pick(["/a/b", "/a/%i" % r.draw(3), "/z/y/x", "a/b", "..", "/a/~1", "/a/-", "/q~0/%i" % k, "", "/a/b/c/d"]) for _ in range(2 + r.draw(5))]
    doc = {"a": r.pick([[1, 2, {"b": k}], {"b": {"c": k}, "1": 5, "/": k}]), "q~": list(range(k % 7))}

    def do():
        from copy import deepcopy

        out, d = [], deepcopy(doc)
        for i, p in enumerate(paths):
            for f in (lambda: pandata.resolve_jsonpointer(d, p), lambda: pandata.resolve_path(d, p), lambda: pandata.resolve_path(d, p, i),
                      lambda: pandata.set_jsonpointer(d, p, [k, i]), lambda: pandata.build_all_jsonpaths({"properties": {p: {"oneOf": [{"properties": {"x": {}, "y%i" % k: {}}}]}}})):
                try:
                    out.append(repr(f()))
                except Exception as ex:
                    out.append((type(ex).__name__, str(ex)))
        return out, repr(d)

    return "pointers", do


def job_paths(r, ctx):
    from pandalone import utils

    ctx.ndirs += 1
    d = os.path.join(ctx.root, "d%i" % ctx.ndirs)
    os.makedirs(os.path.join(d, "bin"))
    for f in ("tool", "other.sh"):
        with open(os.path.join(d, "bin", f), "w") as fp:
            fp.write(f)
        os.chmod(os.path.join(d, "bin", f), 0o755 if r.chance(70) else 0o644)
    ps = [r.pick(["a/../b", "/x/./y/", "b c/é", "~/q%i" % ctx.ndirs, "$HOME/z", "http://h/p%i" % ctx.ndirs, "file:///k/%i" % r.draw(9)]) for _ in range(2 + r.draw(4))]

    def do():
        out = []
        for p in ps:
            for f in (utils.convpath, utils.normpath, utils.path2url, utils.urlpath2path, lambda p: utils.ensure_file_ext(p, ".x%i" % len(ps))):
                try:
                    out.append(f(p))
                except Exception as ex:
                    out.append((type(ex).__name__, str(ex)))
        for n in ("tool", "other.sh", "nope%i" % len(ps)):
            out.append(utils.py_where(n, os.path.join(d, "bin")))
        return out

    return "paths", do


JOBS = [job_eval, job_pointers, job_paths, job_lasso, job_lasso, job_recurse, job_parse, job_map, job_steps, job_pandel, job_component, job_json, job_unique, job_shared_backend]


class Ctx:
    pass


def run(r):
    from pandalone.mappings import pmods_from_tuples

    ctx = Ctx()
    ctx.probe = r.probe
    ctx.root = tempfile.mkdtemp(prefix="verif-thr-")
    ctx.ndirs = 0
    try:
        t = pmodref.gen_tuples(r)
        ctx.pmod = pmods_from_tuples(t)
        ctx.pmod_repr = repr(ctx.pmod)
        w = xlworld.World(r)
        ctx.world = w, w.backend()
        w.disk[xlworld.book_url("a.xlsx")] = [("S", [[1, 2], ["#A1", None]])]
        w.disk[xlworld.book_url("b.xlsx")] = [("S", [["x"]]), ("T", [[None, 5], [6, 7]])]
        todo = {}
        # (often everybody does the same thing on different data, where state wrongly shared shows soonest)
        kinds = JOBS if r.chance(45) else [r.pick(JOBS)]
        for i in r.ops(2, 3):
            js = []
            for _ in range(1 + r.draw(3)):
                name, do = r.pick(kinds)(r, ctx)
                r.probe(name)
                js.append((name, do))
            todo["T%i" % i] = js
        if len(todo) < 2:
            return
        alone, seen = {}, {}
        for n, js in todo.items():
            alone[n], seen[n] = threads.functions_of(lambda: [do() for _, do in js])
        for d, _, fs in list(os.walk(ctx.root, topdown=False)):
            if os.path.basename(d) in ("sub", "x"):
                shutil.rmtree(d)
        # now concurrently
        got = {n: [] for n in todo}
        current = {}

        def body(n):
            def fn():
                for name, do in todo[n]:
                    current[n] = name
                    got[n].append(do())
                current.pop(n, None)

            return fn

        focus = None
        common = sorted(f for f in set().union(*seen.values()) if sum(f in x for x in seen.values()) > 1)
        if common and r.chance(60):
            # switch right within a function that many go through
            sizes = [(min(20, max(x.get(f, 0) for x in seen.values())), f) for f in common]
            focus = {r.weighted(sizes) for _ in range(1 + r.draw(2))}
            r.probe("focused")
        s = threads.Sched(r, dense=r.chance(40), focus=focus)
        victim = None
        if r.chance(20):
            i = r.draw(len(todo))
            victim = list(todo)[i]
            s.kill[i] = r.draw(600)
        res = s.run({n: body(n) for n in todo})
        r.tick(s.lines)
        if s.switches > 20:
            r.probe("many_switches")
        if s.switches > len(todo):
            r.nontrivial = True
        r.state((tuple(sorted(tuple(n for n, _ in js) for js in todo.values())), tuple(sorted(set(s.where.values())))))
        for n, js in todo.items():
            k, v = res[n]
            if n == victim and not s.kill:
                # (whatever it left half-way must not matter to the rest)
                r.fault("killed-thread")
                r.probe("killed")
                continue
            if k == "raised":
                r.check(
                    False, "broke-when-concurrent",
                    lambda: "%s of thread %s worked alone, but concurrently raised %r" % (current.get(n), n, v),
                )
            for (name, _), a, g in zip(js, alone[n], got[n]):
                r.check(a == g, "differs-when-concurrent", lambda: "%s of thread %s gave %r, but alone %r" % (name, n, g, a))
        r.check(repr(ctx.pmod) == ctx.pmod_repr, "shared-changed", "the shared mappings changed")
        # and alone again, afterwards
        n = r.pick(list(todo))
        for (name, do), a in zip(todo[n], alone[n]):
            if name != "unique":
                g = do()
                r.check(a == g, "differs-afterwards", lambda: "%s gave %r, but before %r" % (name, g, a))
    finally:
        shutil.rmtree(ctx.root, ignore_errors=True)
