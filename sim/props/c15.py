"""C15: components report exactly the paths their functions use, mapped, whatever was built or failed before."""
import re

from .. import pmodref

ID = "C15"
QUICK = 12000
THOROUGH = 400000
RULE = (
    "one run = 2-4 function-components (accessing drawn trees of input/output paths, some renaming steps) and 1-2 "
    "assemblies sharing them, built 3-12 times in drawn order under different or shared mappings while functions fail "
    "or get interrupted at a drawn access, and executed in-between; paths reported after each building are compared "
    "with a reference of the mappings. Non-trivial: a failed building and a rebuilding under other mappings."
)
STATES = "hash of (what is built, kind of mappings, outcome, components)"
REAL = ["FuncComponent", "Assembly", "Pstep", "Pmod"]
STUB = ["functions of components"]
PROBES = ["built", "rebuilt", "failed", "interrupted", "unmapped", "assembly", "assembly_failed", "called", "call_failed", "shared", "renames", "explicit_path", "no_outputs", "list_reused", "function_changed"]


class SimInterrupt(KeyboardInterrupt):
    pass


def run(r):
    from pandalone.components import Assembly, FuncComponent
    from pandalone.mappings import pmods_from_tuples

    plan = {"n": None}

    def step():
        n = plan["n"]
        if n is not None:
            plan["n"] = n - 1
            if n == 0:
                r.fault("cfunc-" + type(plan["exc"]).__name__)
                raise plan["exc"]

    comps = []
    calls = []
    extra = [0]
    for i in range(2 + r.draw(3)):
        acc = []
        for _ in range(r.draw(6)):
            chain = tuple(r.pick(pmodref.STEPS) for _ in range(1 + r.draw(3)))
            acc.append((r.draw(2), chain, r.pick(["N1", "N2"]) if r.chance(15) else None))
        spath = [r.pick([None, None, None, "a", "b2", "other"]) for _ in range(2)]

        def cfunc(comp, vtree, *args, i=i, acc=acc, spath=spath):
            calls.append((i, vtree, args))
            for io, chain, name in acc:
                step()
                p = (comp.pout if io else comp.pinp)(spath[io])
                for c in chain[:-1]:
                    p = getattr(p, c)
                if name:
                    setattr(p, chain[-1], name)
                else:
                    getattr(p, chain[-1])
            if extra[0]:
                # run-time only accesses
                if any(io == 0 for io, _, _ in acc):
                    comp.pinp().late

        cfunc.__name__ = "cfunc_c%i" % i if r.chance(70) else r.pick(["b", "my_cfunc_x", "cfunc_cfunc_"])
        own = r.pick([None, None, "a", "zz"])
        c = FuncComponent(cfunc, own)
        name = own or re.sub("^cfunc_", "", cfunc.__name__)
        comps.append((c, name, acc, spath))
        if any(n for _, _, n in acc):
            r.probe("renames")
    asms = []
    for _ in range(1 + r.draw(2)):
        idx = sorted({r.draw(len(comps)) for _ in range(1 + r.draw(3))})
        gen = (comps[i][0] for i in idx)
        given = gen if r.chance(50) else list(gen)
        asms.append((Assembly(given), idx))
        if isinstance(given, list) and r.chance(50):
            # the client goes on with his own list
            r.probe("list_reused")
            given.append(comps[0][0]) if r.chance(50) else given.clear()
    pools = []
    for _ in range(2):
        t = pmodref.gen_tuples(r, root=False)
        if r.chance(60):
            # components' names come first
            t = [(r.pick([n for _, n, _, _ in comps] + ["~.*"]) + "/" + f if r.chance(60) else f, to) for f, to in t]
        pools.append((pmods_from_tuples(t), t, repr(pmods_from_tuples(t))))

    def expect(i, t):
        c, name, acc, spath = comps[i]
        ref = pmodref.from_tuples(t) if t is not None else None
        out = []
        for io in (0, 1):
            if not any(a[0] == io for a in acc):
                out.append([])
                continue
            root = pmodref.RefStep(spath[io] or name, ref)
            for a, chain, nm in acc:
                if a == io:
                    n = root
                    for x in chain[:-1]:
                        n = n.get(x)
                    n.rename(chain[-1], nm) if nm else n.get(chain[-1])
            out.append(root.paths())
        return out

    state = {}
    vtrees = []
    failed = rebuilt = False
    for _ in r.ops(3, 12):
        r.tick()
        if r.chance(15):
            # a function accesses something else from now on
            i = r.draw(len(comps))
            acc = comps[i][2]
            acc[:] = [a for a in acc if r.chance(60)]
            for _ in range(r.draw(3)):
                acc.append((r.draw(2), tuple(r.pick(pmodref.STEPS) for _ in range(1 + r.draw(3))), None))
            r.log("changes", i, acc)
            r.probe("function_changed")
        what = r.weighted([(5, "comp"), (4, "asm"), (3, "call")])
        fail = r.chance(25)
        plan["exc"] = r.pick([ValueError, RuntimeError, KeyError, AttributeError, SimInterrupt])("injected")
        plan["n"] = r.draw(6) if fail else None
        del calls[:]
        if what == "call":
            i = r.draw(len(comps))
            if i not in state:
                continue
            c, name, acc, spath = comps[i]
            vtree, extra[0] = object(), r.draw(2)
            err = None
            try:
                c(vtree, 1, "x")
            except (Exception, SimInterrupt) as ex:
                err = ex
            extra[0] = 0
            fired = plan["n"] is not None and plan["n"] < 0
            plan["n"] = None
            r.log("call", i, fired)
            r.check((err is plan["exc"]) == fired, "wrong-error", lambda: "executing gave %r" % err)
            r.check(
                len(calls) == 1 and calls[0][0] == i and calls[0][1] is vtree and calls[0][2] == (1, "x"), "wrong-call",
                lambda: "executing component %i called %r" % (i, calls),
            )
            r.check([c._inp, c._out] == state[i], "paths-changed", lambda: "executing changed paths %r to %r" % (state[i], [c._inp, c._out]))
            r.probe("call_failed" if fired else "called")
            continue
        k = r.draw(3)
        pmod, t = (None, None) if k == 2 else pools[k][:2]
        args = (pmod,) if pmod is not None or r.chance(50) else ()
        if what == "comp":
            idx = [r.draw(len(comps))]
            target = comps[idx[0]][0]
        else:
            a = r.draw(len(asms))
            target, idx = asms[a]
        err = None
        try:
            target._build(*args)
        except (Exception, SimInterrupt) as ex:
            err = ex
        fired = plan["n"] is not None and plan["n"] < 0
        plan["n"] = None
        r.log("build", what, idx, k, fired, err and type(err).__name__)
        r.state((what, k, fired, len(idx), sum(len(comps[i][2]) for i in idx)))
        r.check((err is plan["exc"]) == fired and (err is None) != fired, "wrong-error", lambda: "building gave %r (failing=%r)" % (err, fired))
        for pm, tt, rep in pools:
            r.check(repr(pm) == rep, "mappings-modified", lambda: "building changed mappings %s into %r" % (rep, pm))
        if fired:
            failed = True
            r.probe("assembly_failed" if what == "asm" else "interrupted" if isinstance(err, SimInterrupt) else "failed")
            for i in idx:
                state.pop(i, None)
            continue
        r.check(
            [c[0] for c in calls] == idx, "wrong-call", lambda: "building %r called functions of %r" % (idx, calls)
        )
        r.check(
            not any(c[1] is v for c in calls for v in vtrees), "data-shared", "a building reused the dummy data of another"
        )
        vtrees += [c[1] for c in calls]
        inp, out = set(), set()
        for i in idx:
            want = expect(i, t)
            c = comps[i][0]
            got = [c._inp, c._out]
            r.check(
                got == want, "wrong-paths",
                lambda: "component %r accessing %r with %r: got %r, must be %r" % (comps[i][1], comps[i][2], t, got, want),
            )
            if state.get(i) not in (None, want):
                rebuilt = True
                r.probe("rebuilt")
            state[i] = [list(x) for x in want]
            inp.update(want[0])
            out.update(want[1])
        r.probe("unmapped" if t is None else "built")
        if any(comps[i][3] != [None, None] for i in idx):
            r.probe("explicit_path")
        if not out:
            r.probe("no_outputs")
        if what == "asm":
            r.probe("assembly")
            if any(set(idx) & set(j) and j is not idx for _, j in asms):
                r.probe("shared")
            got = [target._inp, target._out]
            r.check(
                got == [sorted(inp), sorted(out)], "wrong-paths",
                lambda: "assembly of %r: got %r, must be %r" % (idx, got, [sorted(inp), sorted(out)]),
            )
        # what was built before is not affected
        for i, st in state.items():
            c = comps[i][0]
            r.check([c._inp, c._out] == st, "paths-changed", lambda: "building %r changed those of %i: %r" % (idx, i, st))
    if failed and rebuilt:
        r.nontrivial = True
