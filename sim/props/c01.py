"""C01: whatever lasso returns equals the documented mini-language on the content."""
import os

from .. import xlref, xlworld

ID = "C01"
QUICK = 16000
THOROUGH = 400000
RULE = (
    "one run = a world of 1-3 workbooks, one factory+ranger, and 2-12 operations (lasso via "
    "ranger/high-level function/context-sheet, content change + factory close) with faults armed at "
    "backend calls; every returned Lasso is compared with an independent model of the documented "
    "language. Non-trivial: at least one lasso captured a non-empty rect."
)
STATES = "hash of (model outcome kind, edge forms, rect shape, cached?) per lasso"
REAL = ["xleash._parse", "xleash._capture", "xleash._filter", "xleash._lasso", "SheetsFactory", "ABCSheet"]
STUB = ["workbook backend and its I/O (SimBackend/SimSheet behind ABCBackend/ABCSheet)"]
PROBES = ["captured", "empty", "bad", "scalar", "expanded", "filtered", "after_fault", "cached", "no_empty_raise", "encased", "negative", "dotted1st", "array", "curly"]


def same(a, b):
    """Deep equality that also compares types (1 != True, 1 != 1.0)."""
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return type(a) == type(b) and len(a) == len(b) and all(map(same, a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    return type(a) == type(b) and (a == b or (a != a and b != b))


def make_world(r, nbooks):
    w = xlworld.World(r)
    w.margin_mode = r.draw(4)
    ids = []
    for i in range(nbooks):
        wb = ["a.xlsx", "http://host/dir/b.xlsx", "file:///srv/c.xls"][i]
        ids.append(wb)
        w.disk[xlworld.book_url(wb)] = gen_content(r)
    return w, ids


def gen_content(r):
    names = [["Sheet1"], ["Sheet1", "other"], ["x y", "Sheet1", "Ünì"]][r.draw(3)]
    return [(n, xlworld.gen_grid(r, allow_empty=r.chance(8))) for n in names]


def expected(m, a, base, no_empty):
    """-> (kind, st, nd, values)"""
    try:
        st, nd = m.capture(a, base)
    except xlref.Empty:
        if no_empty:
            return "raise-empty", None, None, None
        st = nd = None
        v = []
    except xlref.Bad:
        return "bad", None, None, None
    else:
        try:
            v = m.read(st, nd)
        except xlref.Bad:
            return "bad", None, None, None
    if a.filt is not None:
        try:
            v = xlref.apply_filter(a.filt, st, nd, v)
        except xlref.Bad:
            return "bad", None, None, None
    return ("empty" if st is None else "ok"), st, nd, v


def run(r):
    from pandalone import xleash
    from pandalone.xleash import Coords
    from pandalone.xleash.io import backend
    import numpy as np

    w, ids = make_world(r, 1 + r.draw(3))
    be = w.backend()
    filters = dict(xleash.installed_filters)
    filters.update(xlref.test_filters())
    sf = xleash.SheetsFactory([be])
    base_opts = {"no_empty": True} if r.chance(15) else {}
    ranger = xleash.Ranger(sf, dict(base_opts), filters)
    cached = {}  # (wb, sheet-id) -> content snapshot the live sheet has
    snap = {}
    arrays = {}
    faulted = False

    for _ in r.ops(2, 12):
        r.tick()
        if r.chance(12):
            # history: content replaced on disk, factory recycled
            wb = r.pick(ids)
            w.disk[xlworld.book_url(wb)] = gen_content(r)
            sf.close()
            arrays.clear()
            cached.clear()
            snap.clear()
            r.log("recycle", wb)
            continue
        wb = r.pick(ids)
        url = xlworld.book_url(wb)
        mode = r.pick(["ranger", "lasso", "context", "ctxwb", "array"])
        content = w.disk[url]
        idx = r.draw(len(content))
        nm = content[idx][0]
        if " " in nm or not nm.isascii():
            sh_txt = r.pick([str(idx)])
        else:
            sh_txt = r.pick([nm, str(idx)])
        grid = content[idx][1]
        base = None
        if r.chance(30):
            base = (r.draw(5), r.draw(5))
        if mode == "array" and (not grid[0] or any(len(row) != len(grid[0]) for row in grid)):
            mode = "context"
        a = xlref.gen_ref(r, (len(grid), len(grid[0])), base is not None)
        m = xlref.Model(grid, w.margin_mode == 1 and mode != "array")
        no_empty = bool(base_opts.get("no_empty"))
        try:
            kind, st, nd, vals = expected(m, a, base, no_empty)
        except xlref.Unspecified:
            r.probe("unspecified")
            continue
        if mode == "array" and kind == "ok" and (
            st[0] >= len(grid) or st[1] >= len(grid[0])
            or nd is not None and (nd[0] >= len(grid) or nd[1] >= len(grid[0]))
        ):
            continue  # these sheets do not pad what lies outside
        ctx = {}
        if base is not None:
            ctx["base_coords"] = Coords(*base)
        # faults
        fpoint = None
        if r.chance(20):
            fpoint = r.pick(["open_book", "open_sheet", "read_states", "read_margins", "read_rect"])
            w.arm(fpoint, 0, None)
        nfired = len(w.fired)
        frag = "%s!%s" % (sh_txt, a.text)
        if idx == 0 and r.chance(30):
            frag = a.text or r.pick([":", "!", "!:"])
        text = "%s#%s" % (wb, frag)
        if mode in ("context", "array"):
            text = "#" + (a.text or ":")
            if r.chance(15):
                text = "#!" + (a.text if a.text or r.chance(50) else ":")
        elif mode == "ctxwb":
            text = "#" + frag
            ctx["url_file"] = wb
        if a.filt is None and r.chance(8):
            q = r.pick("$%&")
            text = q + text + q
            r.probe("encased")
        full_text = text
        if a.filt is not None and r.chance(8):
            # quotes as Excel likes them
            n = text.count('"')
            for i in range(n):
                text = text.replace('"', "“”"[i % 2], 1)
            r.probe("curly")
        r.log("lasso", mode, text, "base=%s" % (base,), "fault=%s" % fpoint, "expect=%s" % kind)
        try:
            if mode == "context":
                cs = sf.fetch_sheet(wb, idx if r.chance(50) else nm)
                res = ranger.do_lasso(text, sheet=cs, **ctx)
            elif mode == "array":
                # the sheet class for in-memory arrays, kept across lassos
                if (wb, idx) not in arrays:
                    arrays[wb, idx] = backend.ArraySheet(
                        np.array(grid, dtype=object), backend.SheetId(url, [nm, idx]))
                r.probe("array")
                res = ranger.do_lasso(text, sheet=arrays[wb, idx], **ctx)
            elif mode == "lasso":
                res = xleash.lasso(
                    text, sheets_factory=sf, available_filters=filters,
                    base_opts=dict(base_opts) or None, return_lasso=True, **ctx
                )
            else:
                res = ranger.do_lasso(text, **ctx)
        except Exception as ex:
            err = ex
            res = None
        fired = len(w.fired) > nfired
        w.disarm()
        if res is None:
            faulted = faulted or fired
            if fired:
                r.log("-> failed as injected")
                continue
            r.log("-> raised", type(err).__name__)
            r.check(
                kind in ("bad", "raise-empty"),
                "spurious-error",
                lambda: "%s on %r raised %r, but the model captures %s..%s = %r"
                % (text, grid, err, st, nd, vals),
            )
            if kind == "raise-empty":
                r.probe("no_empty_raise")
                r.check(
                    isinstance(err, xleash.EmptyCaptureException),
                    "wrong-empty-error",
                    lambda: "%s: expected EmptyCaptureException, got %r" % (text, err),
                )
            else:
                r.probe("bad")
            continue
        r.check(
            not fired, "fault-swallowed",
            lambda: "%s returned %r although %s failed" % (text, res.values, fpoint),
        )
        got_st = None if res.st is None else tuple(int(x) for x in res.st)
        got_nd = None if res.nd is None else tuple(int(x) for x in res.nd)
        r.log("-> ", got_st, got_nd)
        r.check(
            kind in ("ok", "empty"), "missed-error",
            lambda: "%s on %r must fail (%s), but returned %s..%s = %r"
            % (text, grid, kind, got_st, got_nd, res.values),
        )
        r.check(
            (got_st, got_nd) == (st, nd), "wrong-rect",
            lambda: "%s base=%s on %r: captured %s..%s, documented %s..%s"
            % (text, base, grid, got_st, got_nd, st, nd),
        )
        r.check(
            same(res.values, vals), "wrong-values",
            lambda: "%s base=%s on %r: values %r, documented %r" % (text, base, grid, res.values, vals),
        )
        r.check(
            res.sheet is arrays[wb, idx] if mode == "array" else res.sheet.name == nm and res.sheet.book.url == url,
            "wrong-sheet",
            lambda: "%s read %r" % (text, res.sheet),
        )
        r.check(res.xl_ref == full_text, "wrong-field", lambda: "xl_ref=%r for %r" % (res.xl_ref, full_text))
        if a.filt is None and isinstance(res.values, list):
            # a client scribbling on its results must not affect later lassos
            for row in res.values:
                if isinstance(row, list):
                    row[:] = ["scribbled"]
            r.probe("scribbled")
        if kind == "ok":
            r.nontrivial = True
            r.probe("captured")
        else:
            r.probe("empty")
        if nd is None and st is not None:
            r.probe("scalar")
        if a.exp:
            r.probe("expanded")
        if a.filt is not None:
            r.probe("filtered")
        if faulted:
            r.probe("after_fault")
        if any(isinstance(c, int) and c < 0 for e in (a.st, a.nd) if e for c in e[:2]):
            r.probe("negative")
        if "." in a.st[:2]:
            r.probe("dotted1st")
        if (wb, idx) in cached:
            r.probe("cached")
        cached[(wb, idx)] = 1
        r.state((kind, a.st, a.nd, a.exp, got_st and got_nd and (got_nd[0] - got_st[0], got_nd[1] - got_st[1])))
    sf.close()
