"""Generator of xl-refs from an AST, and an independent executable model of the
documented mini-language (targeting, capturing, expansions, re-dimensioning)."""
import json

DIRS = {"L": (0, -1), "U": (-1, 0), "R": (0, 1), "D": (1, 0)}
MOVES = "L U R D LD LU UL UR RU RD DL DR".split()


class Empty(Exception):
    """Model: targeting found nothing."""


class Bad(Exception):
    """Model: the reference cannot be resolved, an error must surface."""


class Unspecified(Exception):
    """Model: the documentation does not say; not judged."""


def colname(c):
    s = ""
    c += 1
    while c:
        c, m = divmod(c - 1, 26)
        s = chr(65 + m) + s
    return s


# ------------------------------------------------------------- generation


def gen_coord(r, size, dot, neg):
    """-> int(1-based, or negative) or one of ^ _ ."""
    k = r.weighted([(10, "n"), (4, "^"), (4, "_")] + ([(8, ".")] if dot else [])
                   + ([(3, "-")] if neg else []))
    if k == "n":
        return 1 + r.draw(size + 2)
    if k == "-":
        return -(1 + r.draw(size))
    return k


def gen_edge(r, dims, is2nd, base):
    """-> (row, col, mov, mod, style)"""
    style = r.pick(["A1", "RC"])
    if is2nd and r.chance(40):
        row = col = "."
    else:
        dot = is2nd or (base and style == "RC")
        row = gen_coord(r, dims[0], dot, style == "RC")
        col = gen_coord(r, dims[1], dot, style == "RC")
    mov = r.pick(MOVES) if r.chance(65) else None
    mod = r.weighted([(5, None), (4, "+"), (1, "?")]) if mov else None
    return (row, col, mov, mod, style)


def edge_str(r, e):
    row, col, mov, mod, style = e
    if style == "A1":
        s = "%s%s" % (colname(col - 1) if isinstance(col, int) else col, row)
    else:
        s = "R%sC%s" % (row, col)
    if mov:
        s += "(%s%s)" % (mov, mod or "")
    return s.lower() if r.chance(15) else s


def gen_exp(r):
    toks = []
    for _ in range(1 + r.draw(3)):
        if r.chance(50):
            toks.append(r.pick("LURD") + str(r.weighted([(4, 1), (4, 2), (3, 3), (1, 11), (1, 12), (1, 10), (1, 20)])))
        elif r.chance(20):
            toks.append(r.pick("LURD") + "?")
        else:
            toks.append("".join(r.pick("LURD") for _ in range(1 + r.draw(4))))
    return "".join(toks)


class Ref:
    st = nd = exp = filt = opts = None
    text = ""


def gen_ref(r, dims, base=False, filters=True, scalar_ok=True):
    """An AST and its text fragment (what goes after `#[sheet!]`)."""
    a = Ref()
    form = r.weighted([(5, "st:nd"), (2, "st"), (1, ""), (1, ":"), (1, ":nd"), (1, "st:")])
    if not scalar_ok and form == "st":
        form = "st:nd"
    st_txt = nd_txt = ""
    if form.startswith("st"):
        a.st = gen_edge(r, dims, False, base)
        st_txt = edge_str(r, a.st)
    if form.endswith("nd"):
        a.nd = gen_edge(r, dims, True, base)
        nd_txt = edge_str(r, a.nd)
    txt = st_txt
    colon = ":" in form
    if colon:
        txt += ":" + nd_txt
        if a.st is None:
            a.st = ("^", "^", None, None, "A1")
        if a.nd is None:
            a.nd = ("_", "_", None, None, "A1")
        if r.chance(40):
            a.exp = gen_exp(r)
            txt += ":" + a.exp
    elif form == "":
        a.st = ("^", "^", None, None, "A1")
        a.nd = ("_", "_", None, None, "A1")
    if filters and r.chance(40):
        a.filt = gen_filter(r)
        txt += ":" + (" " * r.draw(2)) + json.dumps(a.filt)
    a.text = txt
    return a


def gen_redim(r):
    dims = [r.pick([None, 0, 1, 2, 2, 3, 4]) for _ in range(5)]
    if r.chance(30):
        dims[r.draw(5)] = [r.pick([0, 1, 2, 3]), True]
    return dims


def gen_filter(r):
    k = r.draw(5)
    if k == 0:
        return ["redim", [0, 1, 1, 1, 2]]
    if k == 1:
        return ["redim", gen_redim(r)]
    if k == 2:
        return {"func": "redim", "kwds": {r.pick(["row", "col", "table", "cell"]): r.pick([1, 2])}}
    if k == 3:
        return ["pipe", [["redim", gen_redim(r)], r.pick(["first", ["redim", gen_redim(r)], "wrap"])]]
    return {"func": "pipe", "args": ["count", ["redim", {"scalar": 1}]]}


# ------------------------------------------------------------------ model


class Model:
    """`grid`: list-of-lists; None is an empty cell."""

    def __init__(self, grid, dn_from_dims=False):
        self.g = grid
        self.R = len(grid)
        self.C = len(grid[0])
        full = [(i, j) for i in range(self.R) for j in range(self.C) if grid[i][j] is not None]
        if full:
            self.up = (min(i for i, _ in full), min(j for _, j in full))
            self.dn = (max(i for i, _ in full), max(j for _, j in full))
        else:
            self.up = self.dn = (0, 0)
        if dn_from_dims:
            self.dn = (self.R - 1, self.C - 1)

    def full(self, i, j):
        return 0 <= i < self.R and 0 <= j < self.C and self.g[i][j] is not None

    def coord(self, c, axis, base):
        if c == "^":
            return self.up[axis]
        if c == "_":
            return self.dn[axis]
        if c == ".":
            if base is None:
                raise Bad("no base")
            return base[axis]
        v = c - 1 if c > 0 else self.dn[axis] + c + 1
        return v

    def opposite(self, land, mov):
        i, j = land
        d1 = DIRS[mov[0]]
        d2 = DIRS[mov[1]] if len(mov) > 1 else None
        bound = max(self.R, self.C, i + 1, j + 1) + 1
        for k in range(bound if d2 else 1):
            i0 = i + (d2[0] * k if d2 else 0)
            j0 = j + (d2[1] * k if d2 else 0)
            for m in range(bound):
                a, b = i0 + d1[0] * m, j0 + d1[1] * m
                if self.full(a, b):
                    return (a, b)
        raise Empty()

    def same(self, land, mov):
        out = list(land)
        for d in mov:
            di, dj = DIRS[d]
            i, j = land
            while self.full(i + di, j + dj):
                i, j = i + di, j + dj
            if di:
                out[0] = i
            else:
                out[1] = j
        return tuple(out)

    def target(self, edge, base, is2nd):
        row, col, mov, mod, _ = edge
        land = (self.coord(row, 0, base), self.coord(col, 1, base))
        if land[0] < 0 or land[1] < 0:
            raise Unspecified("negative coords before the sheet")
        if not mov:
            return land
        if self.full(*land):
            if mod == "+" or (is2nd and row == col == "." and mod != "?"):
                return self.same(land, mov)
            return land
        return self.opposite(land, mov)

    def expand(self, st, nd, exp):
        r1, r2 = sorted((st[0], nd[0]))
        c1, c2 = sorted((st[1], nd[1]))
        groups = []
        txt = exp.upper().replace("?", "1")
        k = 0
        run = ""
        while k < len(txt):
            ch = txt[k]
            k += 1
            num = ""
            while k < len(txt) and txt[k].isdigit():
                num += txt[k]
                k += 1
            if num:
                if run:
                    groups.append((run, None))
                    run = ""
                groups.append((ch, int(num)))
            else:
                run += ch
        if run:
            groups.append((run, None))
        for dirs, times in groups:
            n = 0
            while times is None or n < times:
                n += 1
                old = (r1, r2, c1, c2)
                for d in dirs:
                    if d == "L" and any(self.full(i, c1 - 1) for i in range(r1, r2 + 1)):
                        c1 -= 1
                    elif d == "R" and any(self.full(i, c2 + 1) for i in range(r1, r2 + 1)):
                        c2 += 1
                    elif d == "U" and any(self.full(r1 - 1, j) for j in range(c1, c2 + 1)):
                        r1 -= 1
                    elif d == "D" and any(self.full(r2 + 1, j) for j in range(c1, c2 + 1)):
                        r2 += 1
                if old == (r1, r2, c1, c2):
                    break
        return (r1, c1), (r2, c2)

    def capture(self, a, base=None):
        """-> (st, nd-or-None) or raises Empty/Bad."""
        st = self.target(a.st, base, False)
        nd = None
        if a.nd:
            nd = self.target(a.nd, st, True)
        if a.exp:
            return self.expand(st, nd or st, a.exp)
        if nd is not None:
            st, nd = (
                (min(st[0], nd[0]), min(st[1], nd[1])),
                (max(st[0], nd[0]), max(st[1], nd[1])),
            )
        return st, nd

    def read(self, st, nd):
        if nd is None:
            if not (0 <= st[0] < self.R and 0 <= st[1] < self.C):
                raise Bad("out of sheet")
            return self.g[st[0]][st[1]]
        return [
            [
                self.g[i][j] if 0 <= i < self.R and 0 <= j < self.C else None
                for j in range(st[1], nd[1] + 1)
            ]
            for i in range(st[0], nd[0] + 1)
        ]


# ------------------------------------------------------- model of filters


def shape_of(v):
    """Nested-list shape (rectangular prefix)."""
    if not isinstance(v, list):
        return ()
    if not v:
        return (0,)
    subs = {shape_of(x) for x in v}
    if len(subs) == 1:
        return (len(v),) + subs.pop()
    n = 0
    lst = list(subs)
    while all(len(s) > n for s in lst) and len({s[n] for s in lst}) == 1:
        n += 1
    return (len(v),) + lst[0][:n]


def transpose(v, nd):
    """Reverse all axes."""
    if nd < 2:
        return v
    shp = shape_of(v)[:nd][::-1]

    def build(idx):
        if len(idx) == nd:
            x = v
            for i in reversed(idx):
                x = x[i]
            return x
        return [build(idx + (i,)) for i in range(shp[len(idx)])]

    return build(())


def redim(v, want):
    if want is None:
        return v
    tr = False
    if isinstance(want, list):
        want, tr = want
    shp = shape_of(v)
    if tr:
        v = transpose(v, len(shp))
        shp = shp[::-1]
    n = len(shp)
    if n < want:
        for _ in range(want - n):
            v = [v]
    elif n > want:
        ones = [i for i, d in enumerate(shp) if d == 1]
        off = n - want
        if off > len(ones):
            v = flatten(v)
        elif off == len(ones):
            v = squeeze(v)
        else:  # drop the first trivial ones
            for _ in range(off):
                v = drop_first_one(v)
    return v


def flatten(v):
    if not isinstance(v, list):
        return [v]
    return [y for x in v for y in (flatten(x) if isinstance(x, list) else [x])]


def squeeze(v):
    if isinstance(v, list):
        if len(v) == 1:
            return squeeze(v[0])
        w = [squeeze(x) for x in v]
        return w
    return v


def drop_first_one(v):
    if isinstance(v, list):
        if len(v) == 1:
            return v[0]
        return [drop_first_one(x) for x in v]
    return v


def apply_filter(filt, st, nd, v):
    if isinstance(filt, str):
        name, args, kw = filt, [], {}
    elif isinstance(filt, dict):
        name, args, kw = filt["func"], filt.get("args") or [], filt.get("kwds") or {}
    else:
        name = filt[0]
        args = next((x for x in filt[1:] if isinstance(x, list)), [])
        kw = next((x for x in filt[1:] if isinstance(x, dict)), {})
    if name == "pipe":
        for f in args:
            v = apply_filter(f, st, nd, v)
        return v
    if name == "first":
        return v[0] if isinstance(v, list) and v else v
    if name == "count":
        return len(flatten(v)) if isinstance(v, list) else 1
    if name == "wrap":
        return [v]
    if name == "redim":
        names = ["scalar", "cell", "row", "col", "table"]
        dims = dict(zip(names, args))
        dims.update(kw)
        if nd is None:
            idx = 0
        else:
            idx = 1 + (nd[1] != st[1]) + 2 * (nd[0] != st[0])
        return redim(v, dims.get(names[idx]))
    raise Bad("unknown filter " + name)


def test_filters():
    """Pure user-filters matching `first`/`count` above, in library terms."""

    def first(ranger, lasso):
        v = lasso.values
        return lasso._replace(values=v[0] if isinstance(v, list) and v else v)

    def count(ranger, lasso):
        v = lasso.values
        return lasso._replace(values=len(flatten(v)) if isinstance(v, list) else 1)

    def wrap(ranger, lasso):
        return lasso._replace(values=[lasso.values])

    return {"first": {"func": first}, "count": {"func": count}, "wrap": {"func": wrap}}
