"""C21: python-expressions in captured values: evaluated one by one, in isolation, and their failures contained."""
import json
import math
import sys

from .. import xlref, xlworld
from . import c01
from .c07 import SimInterrupt

ID = "C21"
QUICK = 7000
THOROUGH = 250000
RULE = (
    "one run = a workbook with cells holding python-expressions (assignments, reads of names others assign, "
    "statements, lassos, filter-calls, nested lassoing of a 2nd book, garbage), and 2-7 lassos through the pyeval "
    "or py filters under drawn eval_all/include/exclude/depth/sub-filters/lax, with faults and interrupts hitting "
    "within expressions; a table of what each expression yields on its own predicts the values. Non-trivial: at "
    "least 3 expressions evaluated, one failing."
)
STATES = "hash of (filter, options, kinds of expressions selected, outcome)"
REAL = ["pyeval_filter, py_filter, run_filter_elementwise", "asteval", "Ranger", "SheetsFactory"]
STUB = ["backend", "host-filters called by expressions"]
PROBES = [
    "pyeval", "py", "eval_all", "eval_all_failed", "kept_text", "isolated_read", "lasso_result", "opts_filled",
    "nested", "interrupted", "fault_fired", "lax_skipped", "dict", "include", "exclude", "depth", "subfilters",
    "twice", "own_opts", "opts_write", "opts_read",
]

WB, WB2 = "a.xlsx", "c.xls"


class Fail(Exception):
    pass


class NestedValue:
    """What a nested lassoing yields, unless a fault hits it."""

    def __init__(self, v):
        self.v = v


def const(v):
    return lambda env: v


def fails(env):
    raise Fail()


def interrupts(env):
    raise SimInterrupt()


HOST = 'ranger.make_call(lasso, "host", ["%s"], {"lax": False})'
# (kind, text, yields): each as if it was the only expression in the world.
EXPRS = [
    ("calc", "1+1", const(2)),
    ("calc", "1 + 1", const(2)),
    ("calc", "[1, 2*3]", const([1, 6])),
    ("calc", "1+1 ", const(2)),
    ("calc", "\n3 + 1", const(4)),
    ("fail", " 1+1", fails),
    ("calc", "{'a': 1}['a']", const(1)),
    ("calc", "max(3, 8) - abs(-2)", const(6)),
    ("calc", "sqrt(16.0)", const(4.0)),
    ("calc", "array([1, 2]).sum() + 0", const(3)),
    ("calc", "s = 0\nfor i in range(4):\n    s += i\ns", const(6)),
    ("calc", "[i * 2 for i in range(3)]", const([0, 2, 4])),
    ("calc", "'a' if 2 > 1 else 'b'", const("a")),
    ("calc", "None", const(None)),
    ("calc", "0", const(0)),
    ("calc", "''", const("")),
    ("text", "'1 + 1'", const("1 + 1")),
    ("text", "'x' * 2", const("xx")),
    ("text", "'undefined_zz'", const("undefined_zz")),
    ("set", "x = 5", const(None)),
    ("set", "x = 7\nx * 2", const(14)),
    ("set", "def f(n):\n    return n + 1\nf(3)", const(4)),
    ("set", "pi = 3", const(None)),
    ("set", "lasso = 4\nlasso", const(4)),
    ("set", "ranger = None", const(None)),
    ("set", "xleash = 9", const(None)),
    ("set", "context = array = 0", const(None)),
    ("set", "max = min\nmax(1, 2)", const(1)),
    ("set", "for x in [1, 2]:\n    f = x\nf", const(2)),
    ("get", "x", fails),
    ("get", "x + 1", fails),
    ("get", "f(3)", fails),
    ("get", "pi", const(math.pi)),
    ("get", "i", fails),
    ("env", "lasso.sh_name", lambda env: env["sh"]),
    ("env", "len(lasso.values)", lambda env: len(env["values"])),
    ("env", "[lasso.st[0], lasso.st[1]]", lambda env: env["st"]),
    ("env", "elval[:2]", const("el")),
    ("fail", "1 - 'tt'", fails),
    ("fail", "boo haha", fails),
    ("fail", "undefined_zz", fails),
    ("fail", "1 / 0", fails),
    ("fail", "[1][5]", fails),
    ("fail", "{}['k']", fails),
    ("fail", "(1", fails),
    ("fail", "raise ValueError('x')", fails),
    ("fail", "assert 1 > 2", fails),
    ("fail", "import os", fails),
    ("fail", "x = 1\ny + 1", fails),
    ("fail", "lasso.nonesuch", fails),
    ("lasso", "xleash.Lasso(values=[1, 'q'])", const([1, "q"])),
    ("lasso", "lasso._replace(values=7)", const(7)),
    ("lasso", "lasso._replace(values=None)", const(None)),
    ("lasso", "lasso._replace(values='1+1', opts=None)", const("1+1")),
    ("lasso", "x = lasso._replace(values=[0])\nx", const([0])),
    ("lasso", "lasso._replace(values=[6, 'w'], opts={'tag': 'own'})", const([6, "w"])),
    ("lasso", "xleash.Lasso(values=6, opts={'tag': 'own'})", const(6)),
    ("lasso", "lasso._replace(values=61, opts={})", const(61)),
    ("lasso", "xleash.Lasso(values=[62], opts={})", const([62])),
    ("host", HOST % "ok", const("hosted")),
    ("host", HOST % "raise", fails),
    ("host", HOST % "none", fails),
    ("host", 'ranger.make_call(lasso, "nonesuch", [], {"lax": False})', fails),
    ("nested", 'ranger.do_lasso("%s#0!A1")' % WB2, lambda env: NestedValue(11)),
    ("nested", 'ranger.do_lasso("%s#0!A1:B1").values' % WB2, lambda env: NestedValue([[11, "z"]])),
    ("nested", 'ranger.do_lasso("missing.xls#0!A1").values', fails),
    ("nested", "ranger.do_lasso('#A1', sheet=lasso.sheet).values", lambda env: NestedValue(env["a1"])),
    ("owrite", "lasso.opts['zz'] = 3", const(None)),
    ("oread", "lasso.opts.get('zz', 'none')", const("none")),
    ("intr", HOST % "intr", interrupts),
    ("intr", "x = [1]\n%s" % (HOST % "intr"), interrupts),
]
TABLE = {t: (k, f) for k, t, f in EXPRS}
KINDS = [
    (4, "calc"), (1, "text"), (4, "set"), (4, "get"), (2, "env"), (3, "fail"), (2, "lasso"), (1, "host"), (2, "nested"),
]
PY_ONLY = [
    ("py", "[row[:1] for row in lasso.values]", lambda env: [row[:1] for row in env["values"]]),
    ("py", "lasso._replace(values=len(lasso.values))", lambda env: len(env["values"])),
    ("py", "n = 0\nfor row in lasso.values:\n    n += len(row)\nn", lambda env: sum(map(len, env["values"]))),
]


def plain(v):
    """Numpy scalars, as results of numpy-functions, are as good as python ones."""
    if hasattr(v, "item") and getattr(v, "ndim", 1) == 0:
        return v.item()
    if isinstance(v, (list, tuple)):
        return [plain(i) for i in v]
    if isinstance(v, dict):
        return {k: plain(i) for k, i in v.items()}
    return v


def same(got, want, fired):
    if isinstance(want, tuple):
        want = list(want)
    if isinstance(want, NestedText):
        return (fired and got == want.text) or same(got, want.v, fired)
    if isinstance(want, dict):
        return isinstance(got, dict) and set(got) == set(want) and all(same(got[k], want[k], fired) for k in want)
    if isinstance(want, list):
        return isinstance(got, list) and len(got) == len(want) and all(same(g, x, fired) for g, x in zip(got, want))
    return c01.same(got, want)


class NestedText:
    def __init__(self, text, v):
        self.text = text
        self.v = v

    def __repr__(self):
        return "%r|%r" % (self.text, self.v)


class Model:
    def __init__(self, r, env, eval_all, subs, lax=False):
        self.r, self.env, self.eval_all, self.subs, self.lax = r, env, eval_all, subs, lax
        self.n = self.nfail = 0
        self.kinds = set()
        self.nested = 0
        self.tags, self.nested_tags = [], []  # options sub-filters must see
        self.interrupts = 0
        self.failing = 0

    def cell(self, text):
        """What becomes of a string."""
        kind, fn = TABLE.get(text, ("junk", fails))
        if text.isdigit():
            kind, fn = "calc", const(int(text))
        if not text:
            kind, fn = "calc", const(None)  # As python's empty programs.
        self.n += 1
        self.kinds.add(kind)
        try:
            v = fn(self.env)
        except SimInterrupt:
            self.interrupts += 1
            return text
        except Fail:
            self.nfail += 1
            if kind == "get":
                self.r.probe("isolated_read")
            if self.eval_all:
                self.failing += 1
            self.r.probe("kept_text")
            return text
        nested = isinstance(v, NestedValue)
        if nested:
            self.nested += 1
            self.r.probe("nested")
            v = v.v
        if kind == "lasso":
            self.r.probe("lasso_result")
            if text.startswith("xleash") or "opts=None" in text:
                self.r.probe("opts_filled")
        if kind in ("owrite", "oread"):
            self.r.probe("opts_" + kind[1:])
        own = "own" if "'own'" in text else "-" if "opts={}" in text else None
        if own:
            self.r.probe("own_opts")
        for s in self.subs:
            if s == "boom":
                if own or not self.lax:
                    self.failing += 1
            elif s == "seeopts":
                (self.nested_tags if nested else self.tags).append(own or "base")
            else:
                v = xlref.apply_filter(s, None, None, v)
        return NestedText(text, v) if nested else v

    def walk(self, v, depth, inc, exc, level=0):
        if level == depth:
            return v
        if isinstance(v, str):
            return self.cell(v)
        if isinstance(v, list):
            return [self.walk(x, depth, inc, exc, level + 1) for x in v]
        if isinstance(v, dict):
            return {
                k: self.walk(x, depth, inc, exc, level + 1) if (not inc or k in inc) and (not exc or k not in exc) else x
                for k, x in v.items()
            }
        return v


def dictify(v, kind):
    if kind == 0:
        return {"k%i" % i: row for i, row in enumerate(v)}
    if kind == 1:
        return {"k%i" % i: row[0] for i, row in enumerate(v)}
    return [{"k%i" % i: x for i, x in enumerate(row)} for row in v]


def hush():
    """Mute what asteval prints to the console for each failing expression."""
    import os
    from asteval import asteval

    if getattr(asteval, "stderr", None) is sys.stderr:
        asteval.stderr = open(os.devnull, "w")


def run(r):
    from pandalone import xleash

    hush()
    w = xlworld.World(r)
    intr_ok = r.chance(25)
    kinds = KINDS + ([(1, "intr")] if intr_ok else []) + [(1, r.pick(["owrite", "oread"]))]
    by_kind = {}
    for e in EXPRS:
        by_kind.setdefault(e[0], []).append(e)

    def draw_text():
        return r.pick(by_kind[r.weighted(kinds)])[1]

    R, C = 1 + r.draw(4), 1 + r.draw(3)
    sheets = []
    for s in range(1 + r.draw(2)):
        grid = [[None] * C for _ in range(R)]
        for i in range(R):
            for j in range(C):
                grid[i][j] = draw_text() if r.chance(75) else r.pick([None, 3, 2.5, True, "plain words", "no-such#A1"])
        if grid[0][0] is None:
            grid[0][0] = 1
        sheets.append(("S%i" % s, grid))
    w.disk[xlworld.book_url(WB)] = sheets
    w.disk[xlworld.book_url(WB2)] = [("T", [[11, "z"]])]
    base = {"tag": "base"}
    if r.chance(30):
        base["lax"] = r.pick([True, False])
    if r.chance(30):
        # (nobody's names)
        base.update(pi="opt", x=[1], y=2, undefined_zz="opt")
    seen = []

    def host(ranger, lasso, what):
        if what == "intr":
            r.fault("interrupt-in-expression")
            raise SimInterrupt("injected")
        if what == "raise":
            r.fault("filter-in-expression")
            raise RuntimeError("injected")
        return None if what == "none" else lasso._replace(values="hosted")

    def arm(ranger, lasso, point, n, intr):
        w.arm(point, n, SimInterrupt if intr else None)
        return lasso

    def todict(ranger, lasso, kind):
        return lasso._replace(values=dictify(lasso.values, kind))

    def seeopts(ranger, lasso):
        seen.append(dict(lasso.opts))
        return lasso

    def boom(ranger, lasso):
        r.fault("sub-filter")
        raise RuntimeError("injected")

    filters = dict(xleash.installed_filters)
    filters.update(xlref.test_filters())
    filters.update({f.__name__: {"func": f} for f in (host, arm, todict, seeopts, boom)})
    sf = xleash.SheetsFactory([w.backend()])
    ranger = xleash.Ranger(sf, base, filters)
    total = totfail = 0
    for _ in r.ops(2, 7):
        r.tick()
        s = r.draw(len(sheets))
        grid = sheets[s][1]
        st = (r.draw(R), r.draw(C))
        nd = (min(R - 1, st[0] + r.draw(4)), min(C - 1, st[1] + r.draw(3)))
        one = r.chance(15)
        values = grid[st[0]][st[1]] if one else [row[st[1] : nd[1] + 1] for row in grid[st[0] : nd[0] + 1]]
        rng = "R%iC%i" % (st[0] + 1, st[1] + 1) + ("" if one else ":R%iC%i" % (nd[0] + 1, nd[1] + 1))
        kw = {}
        lax = base.get("lax", False)
        fault = intr_fault = None
        if r.chance(20):
            intr_fault = r.chance(30)
            fault = ["arm", [r.pick(["open_book", "read_rect", "read_states", "open_sheet"]), r.draw(2), intr_fault]]
        use_dict = not one and r.chance(25)
        env = {"sh": str(s), "values": values, "st": list(st), "a1": grid[0][0]}
        if r.chance(25) and not one:
            # Bulk.
            r.probe("py")
            text = r.pick(PY_ONLY)[1] if r.chance(50) else draw_text()
            if "elval" in text:
                text = "1+1"
            if r.chance(20):
                kw["lax"] = lax = r.pick([True, False])
            spec = ["py", [text], kw]
            see = r.chance(40)
            mod = Model(r, env, True, ("seeopts",) if see else ())
            entry = next((e for e in PY_ONLY if e[1] == text), None)
            if entry:
                want = entry[2](env)
                mod.n += 1
                if see:
                    mod.tags.append("base")
            else:
                want = mod.cell(text)
                if isinstance(want, NestedText):
                    want.text = None
            steps = [spec] + ["seeopts"] * see
            before = values
            opts_desc = "py"
            strict_nested = True
        else:
            r.probe("pyeval")
            eval_all = r.chance(30)
            if eval_all:
                kw["eval_all"] = True
                r.probe("eval_all")
            elif r.chance(20):
                kw["eval_all"] = False
            depth = -1
            if r.chance(20):
                depth = kw["depth"] = r.pick([-1, 0, 1, 2, 3, 4])
                r.probe("depth")
            subs = []
            if r.chance(30):
                subs = [r.weighted([(4, "first"), (4, "count"), (3, "seeopts"), (0 if fault else 1, "boom")]) for _ in range(1 + r.draw(2))]
                kw["filters"] = subs
                r.probe("subfilters")
            inc = exc = None
            if use_dict:
                r.probe("dict")
                as_list = lambda x: [x] if isinstance(x, str) else x
                if r.chance(40):
                    inc = kw["include"] = r.pick([["k0"], ["k1", "k0"], ["nokey"], "k1", "k10"])
                    r.probe("include")
                if r.chance(40):
                    exc = kw["exclude"] = r.pick([["k0"], ["k1"]])
                    r.probe("exclude")
            if r.chance(25):
                kw["lax"] = lax = r.pick([True, False])
            spec = ["pyeval", kw] if kw else "pyeval"
            before = values
            steps = [spec]
            if use_dict:
                kind = r.draw(3)
                steps.insert(0, ["todict", [kind]])
                before = dictify(values, kind)
                env["values"] = before
            mod = Model(r, env, eval_all, subs, base.get("lax", False))
            want = mod.walk(before, depth, as_list(inc), as_list(exc)) if use_dict else mod.walk(before, depth, None, None)
            opts_desc = "pyeval %s" % sorted(kw)
            strict_nested = eval_all
            if not (use_dict or kw or fault or mod.failing or mod.interrupts or mod.nested) and r.chance(20):
                # Values that happen to be expressions themselves, are evaluated by the next one only.
                r.probe("twice")
                steps.append("pyeval")
                env2 = dict(env, values=want)
                mod = Model(r, env2, False, ())
                want = mod.walk(want, -1, None, None)
        if fault:
            steps.insert(0, fault)
        if len(steps) == 1:
            steps = steps[0]
        else:
            steps = ["pipe", steps]
            if not lax and base.get("lax"):
                lax, before = True, values  # All the pipe is skipped.
        text = "%s#%i!%s:%s" % (WB, s, rng, json.dumps(steps))
        if mod.interrupts and (not intr_ok):
            raise AssertionError("interrupts")
        total += mod.n
        totfail += mod.nfail + mod.failing
        del seen[:]
        nf = len(w.fired)
        res = err = None
        try:
            res = ranger.do_lasso(text)
        except (Exception, SimInterrupt) as ex:
            err = ex
        fired = len(w.fired) > nf
        w.disarm()
        r.log("lasso", text, "fired=%s" % fired, err and type(err).__name__)
        r.state((opts_desc, tuple(sorted(mod.kinds)), err and type(err).__name__, fired))
        if fired:
            r.probe("fault_fired")
        desc = "%s on %r" % (text, before)

        # Interrupts hitting any expression surface (unless the lasso failed before meeting them).
        must_intr = mod.interrupts or (fired and intr_fault)
        if must_intr and not mod.failing and not (fired and strict_nested):
            r.probe("interrupted")
            r.check(
                isinstance(err, SimInterrupt), "interrupt-swallowed", lambda: "%s: interrupted, got %r / %r" % (desc, err, res)
            )
            continue
        if isinstance(err, SimInterrupt):
            r.check(must_intr, "spurious-interrupt", lambda: desc)
            continue
        if mod.failing or (fired and strict_nested):
            if mod.failing:
                r.probe("eval_all_failed")
            if not lax:
                r.check(isinstance(err, ValueError), "missed-error", lambda: "%s must fail, got %r / %r" % (desc, err, res))
                continue
            r.probe("lax_skipped")
            want = before
        r.check(err is None, "spurious-error", lambda: "%s: %r; must yield %r" % (desc, err, want))
        got = plain(res.values)
        r.check(same(got, want, fired), "wrong-values", lambda: "%s: got %r, must yield %r" % (desc, got, want))
        if want is not before:
            tags = sorted(o.get("tag", "-") for o in seen)
            r.check(
                tags == sorted(mod.tags + mod.nested_tags) or (fired and set(tags) <= {"own", "base", "-"}), "wrong-options",
                lambda: "%s: sub-filters run with options %r, not %r" % (desc, seen, mod.tags),
            )
    if total >= 3 and totfail:
        r.nontrivial = True
    sf.close()
