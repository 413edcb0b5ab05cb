"""C04: failures surface as documented and leave nothing behind: a retry succeeds."""
from .. import xlref, xlworld
from . import c01

ID = "C04"
QUICK = 12000
THOROUGH = 400000
RULE = (
    "one run = one factory+ranger over 1-2 workbooks and 2-8 lassos; each lasso is first attempted under "
    "1-3 armed faults (open, sibling, bid, states, margins, read, filter) possibly several times, its error "
    "checked against the documented kinds, and then retried with the faults gone: it must deliver exactly "
    "what the model of an unfaulted world delivers. Non-trivial: a fault actually fired before a success."
)
STATES = "hash of (failing stage, exception kind, attempts, outcome of retry)"
REAL = ["Ranger", "lasso()", "SheetsFactory", "ABCSheet caching", "_parse", "_capture", "_filter"]
STUB = ["backend and I/O"]
PROBES = ["interrupt", "setup_err", "retry_ok", "open_err", "read_err", "resolve_err", "filter_err", "syntax_err", "json_err", "empty_err", "multi_attempts", "sibling_err", "direct"]

BAD_REFS = [
    ("a.xlsx", SyntaxError), ("a.xlsx#A1(", SyntaxError), ("#A1(LR):", SyntaxError), ("a.xlsx#A0", SyntaxError),
    ("a.xlsx#A1:B2:L0", SyntaxError), ("a.xlsx#A1:B2:U01", SyntaxError), ("a.xlsx#A1:::", SyntaxError), ("", SyntaxError), ("a.xlsx#A1B2C3", SyntaxError),
    ("a.xlsx#A1:{bad json", ValueError), ('a.xlsx#A1:["f", [1], [2]]', ValueError),
    ('a.xlsx#A1:{"opts": 3, "func": "f"}', ValueError), ('a.xlsx#A1:{"args": [1]}', ValueError),
    ('a.xlsx#A1:{"opts": [], "func": "count"}', ValueError), ('a.xlsx#A1:{"opts": false, "func": "count"}', ValueError), ('a.xlsx#A1:{"opts": "", "func": "count"}', ValueError),
    ("a.xlsx#R.C.", ValueError), (None, ValueError), (12, ValueError), (b"a.xlsx#A1", ValueError),
]


def run(r):
    from pandalone import xleash

    w, ids = c01.make_world(r, 1 + r.draw(2))
    be = w.backend()
    boom = [0, ValueError]

    def flaky(ranger, lasso):
        if boom[0] > 0:
            boom[0] -= 1
            r.fault("filter")
            raise boom[1]("injected filter failure")
        return lasso

    filters = dict(xleash.installed_filters)
    filters.update(xlref.test_filters())
    filters["flaky"] = {"func": flaky}
    sf = xleash.SheetsFactory([be])
    no_empty = r.chance(30)
    ranger = xleash.Ranger(sf, {"no_empty": no_empty}, filters)

    def attempt(text, kw):
        try:
            return ranger.do_lasso(text, **kw), None
        except (Exception, KeyboardInterrupt, SystemExit) as ex:
            return None, ex

    for _ in r.ops(2, 8):
        r.tick()
        if r.chance(5):
            # lasso()'s own ranger cannot be made
            exc = r.pick(xlworld.EXCS + [KeyboardInterrupt])
            no, got = w.opens, None

            class BadOpts:
                def keys(self):
                    raise exc("injected")

            try:
                got = xleash.lasso("%s#A1" % ids[0], sheets_factory=r.pick([sf, None]), base_opts=BadOpts())
            except (Exception, KeyboardInterrupt) as ex:
                err = ex
            r.fault("bad-opts")
            r.probe("setup_err")
            r.log("setup", exc.__name__, type(err).__name__)
            r.check(type(err) is exc, "setup-error-lost", lambda: "making lasso's ranger failed with %s, surfaced as %r" % (exc.__name__, err))
            r.check(w.opens == no, "setup-opened", "a workbook got opened")
            continue
        if r.chance(15):
            text, typ = r.pick(BAD_REFS)
            no = w.opens
            res, ex = attempt(text, {})
            r.log("bad-ref", repr(text), ex and type(ex).__name__)
            r.check(
                ex is not None and isinstance(ex, typ), "wrong-error-kind",
                lambda: "%r: expected %s, got %r / %r" % (text, typ.__name__, ex, res),
            )
            if typ is SyntaxError:
                r.probe("syntax_err")
            else:
                r.probe("json_err")
            continue
        wb = r.pick(ids)
        url = xlworld.book_url(wb)
        idx = r.draw(len(w.disk[url]))
        nm, grid = w.disk[url][idx]
        a = xlref.gen_ref(r, (len(grid), len(grid[0])), False, filters=False)
        m = xlref.Model(grid, w.margin_mode == 1)
        try:
            kind, st, nd, vals = c01.expected(m, a, None, no_empty)
        except xlref.Unspecified:
            continue
        use_filter = r.chance(40) and ":" in a.text
        text = "%s#%s!%s" % (wb, idx, a.text)
        if use_filter:
            text += ':"flaky"'
        kw = {}
        if r.chance(25):
            try:
                kw["sheet"] = sf.fetch_sheet(wb, r.draw(len(w.disk[url])))
                text = text[len(wb) :]
            except Exception:
                pass
        n_att = 1 + r.draw(3)
        failed = 0
        for k in range(n_att):
            points = ["open_book", "open_sheet", "open_sibling", "bid", "read_states", "read_margins", "read_rect", "filter"]
            fp = r.pick(points)
            exc = r.pick(xlworld.EXCS)
            intr = r.chance(12)
            if intr:
                exc = r.pick([KeyboardInterrupt, SystemExit])
            if fp == "filter":
                boom[:] = [1 if use_filter else 0, exc]
            else:
                w.arm(fp, 0, exc)
            nf = len(w.fired)
            if fp in ("read_states", "read_margins") and r.chance(20):
                # a client asks the sheet itself
                try:
                    sh = kw.get("sheet") or sf.fetch_sheet(wb, idx)
                    (sh.get_margin_coords if r.chance(70) else sh.get_states_matrix)()
                    ex = None
                except (Exception, KeyboardInterrupt, SystemExit) as e:
                    ex = e
                r.log("direct", fp, ex and type(ex).__name__)
                if len(w.fired) > nf:
                    r.check(ex is not None, "fault-swallowed", lambda: "margins/states given though %s failed" % fp)
                    r.probe("direct")
                    failed += 1
                w.disarm()
                continue
            filter_fired = boom[0]
            res, ex = attempt(text, kw)
            fired = w.fired[nf:]
            w.disarm()
            filter_fired = filter_fired and not boom[0]
            boom[0] = 0
            r.log("attempt", text, fp, "fired=%s" % bool(fired or filter_fired), ex and type(ex).__name__)
            if not (fired or filter_fired):
                judge(r, text, grid, kind, vals, res, ex, xleash, "unfaulted")
                continue
            failed += 1
            r.check(
                ex is not None, "fault-swallowed",
                lambda: "%s returned %r although %s failed" % (text, res.values, fp),
            )
            if fp in ("open_book", "open_sheet", "bid", "open_sibling"):
                r.probe("sibling_err" if fp == "open_sibling" else "open_err")
                want = ValueError
            elif fp == "filter":
                r.probe("filter_err")
                want = ValueError
            elif fp == "read_rect":
                r.probe("read_err")
                want = (exc, ValueError)
            else:
                r.probe("resolve_err")
                want = ValueError
            if intr:
                r.probe("interrupt")
                want = exc
            r.check(
                isinstance(ex, want), "wrong-error-kind",
                lambda: "%s: %s failure surfaced as %r" % (text, fp, ex),
            )
            r.check(
                "injected" in str(ex), "error-lost",
                lambda: "%s: cause of %s failure missing from %r" % (text, fp, ex),
            )
            r.state((fp, type(ex).__name__, k, kind))
        if failed > 1:
            r.probe("multi_attempts")
        res, ex = attempt(text, kw)
        judge(r, text, grid, kind, vals, res, ex, xleash, "retry after %i faults" % failed)
        if failed and kind in ("ok", "empty"):
            r.probe("retry_ok")
            r.nontrivial = True
        if kind == "raise-empty":
            r.probe("empty_err")
    sf.close()
    live = [s for s in w.sheets if not s.dead]
    r.check(not live, "leaked-sheet", lambda: "after close still open: %r" % live)


def judge(r, text, grid, kind, vals, res, ex, xleash, what):
    r.log(what, kind, ex and type(ex).__name__)
    if kind == "raise-empty":
        r.check(
            isinstance(ex, xleash.EmptyCaptureException), "wrong-empty-error",
            lambda: "%s (%s): expected EmptyCaptureException, got %r/%r" % (text, what, ex, res),
        )
    elif kind == "bad":
        r.check(ex is not None, "missed-error", lambda: "%s (%s): returned %r" % (text, what, res))
    else:
        r.check(
            ex is None, "not-recovered", lambda: "%s (%s): raised %r, model says %r" % (text, what, ex, vals)
        )
        r.check(
            c01.same(res.values, vals), "wrong-values",
            lambda: "%s (%s) on %r: got %r, model says %r" % (text, what, grid, res.values, vals),
        )
