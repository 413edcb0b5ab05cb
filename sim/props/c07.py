"""C07: the lax policy: what fails is either raised or passed over, never half-applied."""
import json

from .. import xlworld
from . import c01

ID = "C07"
QUICK = 16000
THOROUGH = 500000
RULE = (
    "one run = one ranger and 2-8 lassos with pipelines (nested pipes, per-cell sub-filters) of filters failing "
    "by a drawn fault plan (exceptions, non-lasso results, unknown names, broken registrations, interrupts), under "
    "base/ref/call-level lax settings; a small interpreter of the documented policy predicts values or error. "
    "Non-trivial: at least one filter failed."
)
STATES = "hash of (lax settings, pipeline shape, fault plan prefix, outcome)"
REAL = ["Ranger.make_call", "pipe/recurse filters", "_parse"]
STUB = ["backend", "failing filters"]
PROBES = ["lax_skipped", "raised", "interrupted", "elementwise", "verbose", "nonlasso", "unknown", "inner_override", "pipe_skipped", "recurse_skipped", "recurse_piped", "dict", "no_filters"]

INNER = {"#B1": "p", "#B2": "q", "#B4": "z"}


class SimInterrupt(KeyboardInterrupt):
    pass


class Fails(Exception):
    pass


def gen_spec(r, depth=0):
    k = r.weighted([(4, "tag"), (5, "flaky"), (1, "nope"), (1, "badrec"), (2 if depth < 2 else 0, "pipe")])
    kw = {}
    if r.chance(35):
        kw["lax"] = r.pick([True, False])
    if k == "pipe":
        args = [gen_spec(r, depth + 1) for _ in range(1 + r.draw(3))]
    elif k in ("tag", "flaky"):
        args = ["t%i" % r.draw(9)]
    else:
        args = []
    style = r.draw(3)
    if style == 0 and not args and not kw:
        return k
    if style == 2:
        return {"func": k, "args": args, "kwds": kw}
    return [k] + ([args] if args else []) + ([kw] if kw or r.chance(30) else [])


def gen_recurse(r):
    sub = [gen_spec(r, 1) for _ in range(1 + r.draw(2))]
    args, kw = [], {}
    if r.chance(60):
        kw["filters"] = sub
    else:
        args = [sub]
    if r.chance(30):
        kw["lax"] = r.pick([True, False])
    return ["recurse", args, kw]


def parts(spec):
    if isinstance(spec, str):
        return spec, [], {}
    if isinstance(spec, dict):
        return spec["func"], spec.get("args", []), spec.get("kwds", {})
    return (
        spec[0],
        next((x for x in spec[1:] if isinstance(x, list)), []),
        next((x for x in spec[1:] if isinstance(x, dict)), {}),
    )


def interpret(r, plan, opts, spec, v, state):
    name, args, kw = parts(spec)
    lax = kw.get("lax", opts.get("lax", False))
    entry = v
    try:
        if name == "tag":
            return [v, args[0]]
        if name == "todict":
            return {"k%i" % i: x for i, x in enumerate(v)}
        if name == "flaky":
            x = plan[state[0] % len(plan)]
            state[0] += 1
            if x == "intr":
                raise SimInterrupt()
            if x == "ok":
                return [v, args[0]]
            state[1] += 1
            raise Fails()
        if name == "pipe":
            for s in args:
                v = interpret(r, plan, opts, s, v, state)
            return v
        if name == "recurse":
            subs = kw.get("filters") or (args[0] if args else [])

            def dive(x):
                if isinstance(x, list):
                    return [dive(i) for i in x]
                if isinstance(x, dict):
                    return {k: dive(i) for k, i in x.items()}
                if x in INNER:
                    x = INNER[x]
                    for s in subs:
                        x = interpret(r, plan, opts, s, x, state)
                return x

            return dive(v)
        state[1] += 1
        r.probe("unknown")
        raise Fails()
    except Fails:
        if not lax:
            raise
        if kw.get("lax") and not opts.get("lax"):
            r.probe("inner_override")
        r.probe("%s_skipped" % (name if name in ("pipe", "recurse") else "lax"))
        return entry


def run(r):
    from pandalone import xleash

    w = xlworld.World(r)
    be = w.backend()
    wb = "a.xlsx"
    w.disk[xlworld.book_url(wb)] = [("S", [["#B1", "p"], ["#B2", "q"], [7, 3], ["#B4", "z"]])]
    plan = [
        r.weighted([(5, "ok"), (5, "raise"), (2, "none"), (1, "str"), (1, "tuple"), (0 if i else 1, "intr")])
        for i in range(1 + r.draw(6))
    ]
    if plan[0] == "intr" and not r.chance(15):
        plan[0] = "raise"
    errs = [ValueError, KeyError, OSError, AttributeError, SyntaxError, StopIteration, MemoryError, RuntimeError]
    etype = r.pick(errs)
    n = [0]

    def tag(ranger, lasso, t):
        return lasso._replace(values=[lasso.values, t])

    def flaky(ranger, lasso, t):
        x = plan[n[0] % len(plan)]
        n[0] += 1
        if x == "ok":
            return tag(ranger, lasso, t)
        r.fault("filter-" + x)
        if x == "intr":
            raise SimInterrupt("injected")
        if x == "raise":
            raise etype("injected failure")
        r.probe("nonlasso")
        return {"none": None, "str": "not a lasso", "tuple": (1, 2)}[x]

    filters = dict(xleash.installed_filters)
    filters.update(
        tag={"func": tag},
        todict={"func": lambda rg, lasso: lasso._replace(values={"k%i" % i: x for i, x in enumerate(lasso.values)})},
        flaky={"func": flaky, "desc": "Flaky one."}, badrec={"func": tag, "bogus": 1}
    )
    base = {}
    if r.chance(50):
        base["lax"] = r.pick([True, False])
    if r.chance(25):
        base["verbose"] = True
        r.probe("verbose")
    sf = xleash.SheetsFactory([be])
    ranger = xleash.Ranger(sf, base, filters)
    for _ in r.ops(2, 8):
        r.tick()
        opts = dict(base)
        d = {}
        elem = r.chance(30)
        if r.chance(40):
            d["opts"] = {}
            if r.chance(80) and not elem:  # (whose opts govern sub-filters is not documented)
                d["opts"]["lax"] = r.pick([False, True])
            if r.chance(30):
                d["opts"]["verbose"] = r.pick([True, False])
            opts.update(d["opts"])
        if r.chance(8):
            # no filters at all: nothing can be called
            bare = xleash.Ranger(sf, dict(base), {})
            fn = r.pick(["redim", "pipe", "tag", "recurse"])
            lax = dict(base, **(d.get("opts") or {})).get("lax", False)
            text = "%s#A1:A4:%s" % (wb, json.dumps(dict(d, func=fn)))
            res = err = None
            try:
                res = bare.do_lasso(text).values
            except Exception as ex:
                err = ex
            r.log("no filters", text, err and type(err).__name__)
            r.probe("no_filters")
            if lax:
                r.check(err is None, "lax-raised", lambda: "%s raised %r without filters" % (text, err))
                r.check(c01.same(res, [["#B1"], ["#B2"], [7], ["#B4"]]), "wrong-values", lambda: "%s got %r without filters" % (text, res))
            else:
                r.check(isinstance(err, ValueError), "not-raised", lambda: "%s without filters: %r / %r" % (text, err, res))
            continue
        n[0] = 0
        state = [0, 0]
        if elem:
            spec = gen_recurse(r)
            if r.chance(40):
                # Nothing half-expanded is left behind, when what follows fails either.
                r.probe("recurse_piped")
                args = [gen_spec(r, 1) for _ in range(r.draw(3))]
                args.insert(r.draw(len(args) + 1), spec)
                kw = {"lax": r.pick([True, False])} if r.chance(40) else {}
                if r.chance(35):
                    args.insert(0, "todict")
                    r.probe("dict")
                spec = ["pipe", args, kw]
            v = [["#B1"], ["#B2"], [7], ["#B4"]]
            rng = "A1:A4"
            r.probe("elementwise")
        else:
            spec = gen_spec(r)
            v = [["q"]]
            rng = "B2:B2"
        name, args, kw = parts(spec)
        d.update(func=name, args=args)
        if kw:
            d["kwds"] = kw
        text = "%s#%s:%s" % (wb, rng, json.dumps(d))
        want = exc = None
        try:
            want = interpret(r, plan, opts, [name, args, kw], v, state)
        except Fails:
            exc = ValueError
        except SimInterrupt:
            exc = SimInterrupt
        res = err = None
        try:
            res = ranger.do_lasso(text)
        except (Exception, SimInterrupt) as ex:
            err = ex
        r.log("lasso", json.dumps(d, sort_keys=True), "plan", plan, err and type(err).__name__)
        r.state((repr(base), repr(d.get("opts")), d["func"], tuple(plan[:3]), err and type(err).__name__))
        if state[1]:
            r.nontrivial = True
        if exc is None:
            r.check(
                err is None, "lax-raised",
                lambda: "%s opts=%r plan=%r raised %r, must yield %r" % (text, opts, plan, err, want),
            )
            got = getattr(res, "values", res)
            r.check(
                c01.same(got, want), "wrong-values",
                lambda: "%s opts=%r plan=%r: got %r, must yield %r" % (text, opts, plan, got, want),
            )
        else:
            r.probe("interrupted" if exc is SimInterrupt else "raised")
            r.check(
                isinstance(err, exc), "not-raised" if err is None else "wrong-error-kind",
                lambda: "%s opts=%r plan=%r: expected %s, got %r / %r" % (text, opts, plan, exc, err, res),
            )
        r.check(
            n[0] == state[0], "wrong-calls",
            lambda: "%s opts=%r plan=%r: %i filter calls, not %i" % (text, opts, plan, n[0], state[0]),
        )
    sf.close()
