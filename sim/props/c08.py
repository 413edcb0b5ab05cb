"""C08: recursive lassoing expands exactly the xl-refs in the captured values."""
import json

from .. import xlref, xlworld
from . import c01

ID = "C08"
QUICK = 12000
THOROUGH = 400000
RULE = (
    "one run = 2-3 workbooks whose cells hold xl-refs to one another (absolute, relative to their own cell, "
    "other sheets/books, themselves recursive), non-ref strings and plain values, and 2-7 recursive lassos under "
    "drawn include/exclude/depth/sub-filters with faults armed; an independent recursive model predicts the "
    "values, or that the lasso must fail. Non-trivial: at least 2 inner xl-refs expanded."
)
STATES = "hash of (pipeline, depth, key filters, number and kinds of inner refs, outcome)"
REAL = ["recursive_filter, run_filter_elementwise", "Ranger", "_parse", "_capture", "SheetsFactory"]
STUB = ["backend"]
PROBES = ["relative", "nested", "other_book", "other_sheet", "dict", "depth", "include", "exclude", "skipped_text", "inner_error", "fault_fired", "subfilters", "scalar", "pandas", "recycled", "own_elementwise", "lists_in_cells"]

TEXTS = ["plain", "a # b", "#A1(", "no hash!A1", "#", "x#A0", "#A1:::", "'#A1'"]


class ModelWorld:
    def __init__(self, r, w):
        self.r, self.w = r, w
        self.refs = {}  # (url, sheet-idx, row, col) -> Inner
        self.n_inner = 0
        self.mine = False

    def lasso(self, inner, url, idx, base):
        """Model of `do_lasso` for the ref `inner` met at sheet (url, idx)."""
        if inner.url == "bad":
            raise xlref.Bad("no such book")
        url = inner.url or url
        if inner.idx is not None:
            idx = inner.idx
        elif inner.url:
            idx = 0
        content = self.w.disk[url]
        if idx >= len(content):
            raise xlref.Bad("no such sheet")
        grid = content[idx][1]
        m = xlref.Model(grid, self.w.margin_mode == 1)
        kind, st, nd, v = c01.expected(m, inner.ast, base, False)
        if kind == "bad":
            raise xlref.Bad()
        if inner.recurse:
            v = self.recurse(v, url, idx, st, -1, (), 0)
        return v

    def expand(self, text, url, idx, base, subs):
        if self.mine:
            # the elements processed by a client's own function
            v = "%s@%s" % (text, base and tuple(base))
            self.n_inner += 1
            for s in subs:
                v = xlref.apply_filter(s, None, None, v)
            return v
        inner = self.refs.get(text)
        if inner is None:
            self.r.probe("skipped_text")
            return text
        self.n_inner += 1
        v = self.lasso(inner, url, idx, base)
        for s in subs:
            v = xlref.apply_filter(s, None, None, v)
        return v

    def recurse(self, v, url, idx, st, depth, subs, level, inc=None, exc=None):
        if level == depth:
            return v
        if isinstance(v, str):
            return self.expand(v, url, idx, st, subs)
        if isinstance(v, Pd):
            return self.recurse_pd(v, url, idx, st, depth, subs, inc, exc, level)
        if isinstance(v, dict):
            return self.recurse_dict(v, url, idx, None, depth, subs, inc, exc, level)
        if isinstance(v, list):
            out = []
            for i, x in enumerate(v):
                b = st
                if st is not None and level == 0:
                    b = (st[0] + i, st[1])
                elif st is not None and level == 1:
                    b = (st[0], st[1] + i)
                out.append(self.recurse(x, url, idx, b, depth, subs, level + 1, inc, exc))
            return out
        return v

    def recurse_dict(self, d, url, idx, st, depth, subs, inc, exc, level=0):
        """Cells hold no relative refs here."""
        out = {}
        for k, v in d.items():
            if (not inc or k in inc) and (not exc or k not in exc):
                v = self.recurse(v, url, idx, None, depth, subs, level + 1, inc, exc)
            out[k] = v
        return out


    def recurse_pd(self, d, url, idx, st, depth, subs, inc, exc, level):
        """Frames (keys, each with a column) and series."""
        out = []
        for i, (k, v) in enumerate(d.items):
            if level or (not inc or k in inc) and (not exc or k not in exc):
                b = st
                if st is not None:
                    b = (st[0], st[1] + i) if d.frame else (st[0] + i, st[1])
                v = self.recurse(v, url, idx, b, depth, subs, level + 1, inc, exc)
                if isinstance(v, (list, dict)):
                    raise xlref.Unspecified  # pandas may broadcast or refuse them
            out.append((k, v))
        return Pd(d.frame, out)


class Pd:
    """A DataFrame or Series, in the model."""

    def __init__(self, frame, items):
        self.frame, self.items = frame, items

    def plain(self):
        return {"frame" if self.frame else "series": [(k, v.plain() if isinstance(v, Pd) else v) for k, v in self.items]}


def pd_model(v, kind):
    ks = ["k%i" % i for i in range(max(len(v), len(v[0])))]
    if kind == 3:
        return Pd(True, [(k, Pd(False, list(enumerate(col)))) for k, col in zip(ks, zip(*v))])
    return Pd(False, [(k, row[0]) for k, row in zip(ks, v)])


def pandify(v, kind):
    import pandas as pd

    ks = ["k%i" % i for i in range(max(len(v), len(v[0])))]
    if kind == 3:
        return pd.DataFrame(v, columns=ks[: len(v[0])], dtype=object)
    return pd.Series([row[0] for row in v], index=ks[: len(v)], dtype=object)


def scribble(v):
    """A client may do what it likes with its results."""
    if isinstance(v, dict):
        for x in v.values():
            scribble(x)
        v["scribbled"] = 1
    elif isinstance(v, list):
        for x in v:
            scribble(x)
        v[:] = ["scribbled"]


def plain(v):
    import pandas as pd

    if isinstance(v, pd.DataFrame):
        return {"frame": [(k, plain(c)) for k, c in v.items()]}
    if isinstance(v, pd.Series):
        return {"series": list(v.items())}
    return v


def dictify(v, kind):
    if kind == 0:
        return {"k%i" % i: row for i, row in enumerate(v)}
    if kind == 1:
        return {"k%i" % i: row[0] for i, row in enumerate(v)}
    return [{"k%i" % i: x for i, x in enumerate(row)} for row in v]


def tolists(v):
    return [[[x, [x, 1, x]] for x in row] for row in v]


class Inner:
    url = idx = None
    recurse = False


def run(r):
    from pandalone import xleash

    w = xlworld.World(r)
    w.margin_mode = r.draw(4)
    mw = ModelWorld(r, w)
    ids = ["a.xlsx", "http://h/b.xlsx", "c.xls"][: 2 + r.draw(2)]
    shapes = []
    for b, wb in enumerate(ids):
        n = 1 + r.draw(2)
        for s in range(n):
            shapes.append((b, s))
        w.disk[xlworld.book_url(wb)] = [
            ("S%i" % s, xlworld.gen_grid(r, 4, 3, allow_empty=False)) for s in range(n)
        ]
    # Widen each grid: columns [0..2] may get refs, the rest are plain leafs.
    for b, s in shapes:
        grid = w.disk[xlworld.book_url(ids[b])][s][1]
        for row in grid:
            row += [None] * (3 - len(row))
            for _ in range(2):
                row.append(r.pick([None, 5, "leaf", 1.5]))
    use_pd = r.chance(20)
    use_dict = not use_pd and r.chance(25)
    # Plant refs: sheets only refer to later ones, or to own leafs.
    for k, (b, s) in enumerate(shapes):
        url = xlworld.book_url(ids[b])
        grid = w.disk[url][s][1]
        for _ in range(2 + r.draw(6)):
            i, j = r.draw(len(grid)), r.draw(3)
            later = shapes[k + 1 :]
            inner = Inner()
            if r.chance(12):
                grid[i][j] = r.pick(TEXTS)
                continue
            if r.chance(4):
                inner.url, inner.idx = "bad", None
                text = "missing.xlsx#A1"
                mw.refs[text] = inner
                grid[i][j] = text
                continue
            if later and r.chance(60):
                tb, ts = r.pick(later)
                tgrid = w.disk[xlworld.book_url(ids[tb])][ts][1]
                a = xlref.gen_ref(r, (len(tgrid), len(tgrid[0])), not use_dict and r.chance(50), filters=False)
                text = a.text
                if tb != b:
                    inner.url = xlworld.book_url(ids[tb])
                if tb != b and ts == 0 and a.text:
                    text = "#" + text
                else:
                    inner.idx = ts
                    text = "#S%i!%s" % (ts, text) if r.chance(50) else "#%i!%s" % (ts, text)
                if tb != b:
                    text = ids[tb] + text
                if ":" in a.text and r.chance(40):
                    inner.recurse = True
                    text += r.pick([':"recurse"', ':["recurse"]', ':{"func":"pipe","args":["recurse"]}'])
                inner.ast = a
            else:
                a = xlref.Ref()
                dot = not use_dict and r.chance(60)
                row = r.pick([".", "."] if dot else [1 + r.draw(len(grid)), "^", "_"])
                col = r.pick([4, 5])
                mov = r.pick([None, "R", "DR", "L"])
                a.st = (row, col, mov, r.pick([None, "+"]) if mov else None, "RC")
                a.text = xlref.edge_str(r, a.st)
                if r.chance(50):
                    a.nd = (".", ".", r.pick(xlref.MOVES), r.pick([None, "+"]), "RC")
                    a.text += ":" + xlref.edge_str(r, a.nd)
                inner.ast = a
                text = "#" + a.text
            mw.refs[text] = inner
            grid[i][j] = text

    be = w.backend()
    filters = dict(xleash.installed_filters)
    filters.update(xlref.test_filters())

    def todict(ranger, lasso, kind):
        return lasso._replace(values=(pandify if kind > 2 else dictify)(lasso.values, kind))

    filters["todict"] = {"func": todict}
    filters["tolists"] = {"func": lambda ranger, lasso: lasso._replace(values=tolists(lasso.values))}

    def element(ranger, lasso, context, elval, how=0):
        if not isinstance(elval, str):
            return False, elval
        b = context.base_coords
        v = "%s@%s" % (elval, b and tuple(int(x) for x in b))
        return True, lasso._replace(values=v) if how else v

    def mine(ranger, lasso, how=0, filters=(), include=None, exclude=None, depth=-1):
        from pandalone.xleash import _filter

        return _filter.run_filter_elementwise(ranger, lasso, element, filters, include, exclude, depth, how)

    filters["mine"] = {"func": mine}
    sf = xleash.SheetsFactory([be])
    ranger = xleash.Ranger(sf, {}, filters)

    for _ in r.ops(2, 7):
        r.tick()
        if r.chance(15):
            # workbooks saved with other leafs, and opened again
            sf.close()
            for b, s in shapes:
                for row in w.disk[xlworld.book_url(ids[b])][s][1]:
                    for j in range(3, len(row)):
                        row[j] = r.pick([None, 6, "leaf", 7.5, "leaf2"])
            r.log("recycle")
            r.probe("recycled")
        b, s = r.pick(shapes)
        url = xlworld.book_url(ids[b])
        grid = w.disk[url][s][1]
        if r.chance(20):
            i, j = r.draw(len(grid)), r.draw(3)
            rng = "R%iC%i" % (i + 1, j + 1)
            st, nd = (i, j), (i, j)
            if not use_dict and not use_pd:
                if r.chance(50):
                    rng += ":R%iC%i" % (i + 1, j + 1)
                else:
                    nd = None
                    r.probe("scalar")
        else:
            i, j = r.draw(len(grid)), r.draw(3)
            st = (i, j)
            nd = (min(len(grid) - 1, i + r.draw(4)), min(len(grid[0]) - 1, j + r.draw(4)))
            rng = "R%iC%i:R%iC%i" % (st[0] + 1, st[1] + 1, nd[0] + 1, nd[1] + 1)
        if (use_dict or use_pd) and ":" not in rng:
            rng += ":" + rng
        kw = {}
        depth = -1
        if r.chance(30):
            depth = r.pick([-1, 0, 1, 2, 3, 4])
            kw["depth"] = depth
            r.probe("depth")
        subs = []
        if r.chance(25):
            subs = [r.pick(["first", "count"] if use_pd else ["first", "count", "wrap"]) for _ in range(1 + r.draw(2))]
            kw["filters"] = subs
            r.probe("subfilters")
        inc = exc = None
        if use_dict or use_pd:
            r.probe("pandas" if use_pd else "dict")
            if r.chance(40):
                inc = r.pick([["k0"], ["k1", "k0"], "k1", ["nokey"], "k10", ["k1", "k1"]])
                kw["include"] = inc
                r.probe("include")
            if r.chance(40):
                exc = r.pick([["k0"], "k0", ["k1"], "k10"])
                kw["exclude"] = exc
                r.probe("exclude")
            inc = [inc] if isinstance(inc, str) else inc
            exc = [exc] if isinstance(exc, str) else exc
        mw.mine = r.chance(20)
        if mw.mine:
            r.probe("own_elementwise")
            if r.chance(50):
                kw["how"] = r.draw(2)
        fname = "mine" if mw.mine else "recurse"
        spec = [fname, kw] if kw else fname
        if use_dict or use_pd:
            kind = r.pick([3, 3, 4]) if use_pd else r.draw(3)
            spec = ["pipe", [["todict", [kind]], spec]]
        lists = not use_dict and not use_pd and ":" in rng and r.chance(20)
        if lists:
            # each cell becomes a (nested) list, all of it found at that cell
            spec = ["pipe", ["tolists", spec]]
            r.probe("lists_in_cells")
        text = "%s#%i!%s:%s" % (ids[b], s, rng, json.dumps(spec))
        m = xlref.Model(grid)
        mw.n_inner = 0
        want = None
        try:
            v = m.read(st, nd)
            if use_dict:
                v = mw.recurse(dictify(v, kind), url, s, None, depth, subs, 0, inc, exc)
            elif use_pd:
                v = mw.recurse(pd_model(v, kind), url, s, st, depth, subs, 0, inc, exc).plain()
            else:
                v = mw.recurse(tolists(v) if lists else v, url, s, st, depth, subs, 0)
            want = v
            bad = False
        except xlref.Bad:
            bad = True
        except xlref.Unspecified:
            continue
        nf = len(w.fired)
        fp = None
        if r.chance(15):
            fp = r.pick(["open_book", "open_sibling", "read_states", "read_rect", "open_sheet"])
            intr = KeyboardInterrupt if r.chance(25) else None
            w.arm(fp, r.draw(3), intr)
        res = err = None
        try:
            res = ranger.do_lasso(text)
        except (Exception, KeyboardInterrupt) as ex:
            err = ex
        fired = len(w.fired) > nf
        w.disarm()
        r.log("lasso", text, "fault=%s/%s" % (fp, fired), "bad=%s" % bad, err and type(err).__name__)
        r.state((repr(spec), depth, mw.n_inner, bad, fired))
        if fired:
            r.probe("fault_fired")
            r.check(err is not None, "fault-swallowed", lambda: "%s: %s failed, yet %r" % (text, fp, res.values))
            r.check(
                isinstance(err, intr or Exception), "fault-masked",
                lambda: "%s: %s failed with %s, surfaced as %r" % (text, fp, intr, err))
            continue
        if bad:
            r.probe("inner_error")
            r.check(isinstance(err, ValueError), "missed-error", lambda: "%s must fail, got %r / %r" % (text, err, res))
            continue
        r.check(err is None, "spurious-error", lambda: "%s on %r: %r; must yield %r" % (text, grid, err, want))
        got = plain(res.values)
        r.check(
            c01.same(got, want), "wrong-values",
            lambda: "%s on %r: got %r, must yield %r" % (text, grid, got, want),
        )
        if mw.n_inner > 1:
            r.nontrivial = True
        scribble(res.values)
    for t, inner in mw.refs.items():
        if inner.url == "bad":
            continue
        if any("." == c for c in inner.ast.st[:2]):
            r.probe("relative")
        if inner.recurse:
            r.probe("nested")
        if inner.url:
            r.probe("other_book")
        elif inner.idx is not None:
            r.probe("other_sheet")
    sf.close()
