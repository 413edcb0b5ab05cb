"""C06: the post-mortem record of a ranger tells the last completed stage of its last lasso."""
import json

from .. import xlref, xlworld
from . import c01

ID = "C06"
QUICK = 10000
THOROUGH = 300000
RULE = (
    "one run = one ranger and 2-10 lassos, most failed at a drawn stage (context, syntax, JSON, open, resolve, "
    "read, any filter of a pipeline); after each the ranger's post-mortem record is compared with the stages the "
    "simulator knows to have completed. Non-trivial: a failure after a success or the reverse."
)
STATES = "hash of (failing stage, recorded stage, previous outcome)"
REAL = ["Ranger", "_parse", "_capture", "_filter", "SheetsFactory"]
STUB = ["backend", "probing filters"]
PROBES = ["parse", "open", "capture", "filter", "context", "success", "nested", "bad_context"]


def run(r):
    from pandalone import xleash

    w, ids = c01.make_world(r, 1 + r.draw(2))
    be = w.backend()

    def tag(ranger, lasso, name):
        w.hit("filter:" + name)
        return lasso._replace(values=[name, lasso.values])

    filters = dict(xleash.installed_filters)
    for n in "fgh":
        filters[n] = {"func": lambda ranger, lasso, n=n: tag(ranger, lasso, n)}
    sf = xleash.SheetsFactory([be])
    ranger = xleash.Ranger(sf, {}, filters)
    r.check(ranger.intermediate_lasso is None, "stale-record", "a new ranger has a record")
    prev = None
    for _ in r.ops(2, 10):
        r.tick()
        wb = r.pick(ids)
        url = xlworld.book_url(wb)
        idx = r.draw(len(w.disk[url]))
        grid = w.disk[url][idx][1]
        a = xlref.gen_ref(r, (len(grid), len(grid[0])), False, filters=False)
        try:
            kind, st, nd, vals = c01.expected(xlref.Model(grid, w.margin_mode == 1), a, None, False)
        except xlref.Unspecified:
            continue
        if kind not in ("ok", "empty"):
            continue
        names = []
        spec = None
        if ":" in a.text and r.chance(70):
            names = [r.pick("fgh") for _ in range(1 + r.draw(3))]
            if len(names) == 1 and r.chance(60):
                spec = names[0]
            else:
                spec = ["pipe", names]
        text = "%s#%s!%s%s" % (wb, idx, a.text, ":" + json.dumps(spec) if spec else "")
        stage = r.weighted(
            [(3, "none"), (1, "syntax"), (1, "json"), (2, "open_book"), (2, "read_states"),
             (2, "read_margins"), (2, "read_rect"), (3, "filter"), (1, "bad_context")]
        )
        ran = names
        if stage == "filter":
            if not names:
                stage = "none"
            else:
                k = r.draw(len(names))
                w.arm("filter:" + names[k], names[:k].count(names[k]))
                ran = names[: k + 1]
        elif stage == "syntax":
            text = wb + "#A1("
        elif stage == "json":
            text = "%s#%s!A1:{bad" % (wb, idx)
        elif stage not in ("none", "bad_context"):
            w.arm(stage)
        bc = xleash.Coords(r.draw(3), r.draw(3))
        nf = len(w.fired)
        res = err = None
        try:
            res = ranger.do_lasso(text, base_coords=bc, **({"bad_field": 1} if stage == "bad_context" else {}))
        except Exception as ex:
            err = ex
        fired = w.fired[nf:]
        w.disarm()
        if stage in ("open_book", "read_states", "read_margins", "read_rect", "filter") and not fired:
            stage = "none"
        rec = ranger.intermediate_lasso
        r.log("lasso", text, stage, err and type(err).__name__, rec and rec[0])
        if stage == "none":
            r.check(err is None, "spurious-error", lambda: "%s: %r" % (text, err))
        else:
            r.check(err is not None, "fault-swallowed", lambda: "%s: %s failed, yet %r" % (text, stage, res))
        if stage == "bad_context":
            r.check(rec is None, "stale-record", lambda: "no context could be made, yet recorded %r" % (rec,))
            r.probe("bad_context")
            prev = stage
            continue
        want = {
            "syntax": "context", "json": "context", "open_book": "parse",
            "read_states": "open", "read_margins": "open", "read_rect": "capture",
        }.get(stage)
        if want is None:
            want = ran[-1] if ran else "read_rect"
        r.check(
            isinstance(rec, tuple) and rec[0] == want, "wrong-stage",
            lambda: "%s failing at %s: recorded stage %r, must be %r" % (text, stage, rec and rec[0], want),
        )
        rl = rec[1]
        r.check(rl.base_coords == bc, "stale-record", lambda: "%s: record of another lasso: %r" % (text, rl))
        lvl = ["context", "parse", "open", "capture", "read_rect"].index(want) if not ran or want in ("context", "parse", "open", "capture", "read_rect") else 5
        r.check(
            rl.xl_ref == (text if lvl >= 1 else None), "wrong-field",
            lambda: "%s at %s: xl_ref=%r" % (text, want, rl.xl_ref),
        )
        r.check(
            (rl.sheet is not None and rl.sheet.idx == idx and rl.sheet.book.url == url) if lvl >= 2 else rl.sheet is None,
            "wrong-field", lambda: "%s at %s: sheet=%r" % (text, want, rl.sheet),
        )
        got = tuple(None if x is None else tuple(map(int, x)) for x in (rl.st, rl.nd))
        r.check(
            got == ((st, nd) if lvl >= 3 else (None, None)), "wrong-field",
            lambda: "%s at %s: rect=%r" % (text, want, got),
        )
        if lvl >= 4:
            v = vals
            for n in ran[:-1] if ran else ():
                v = [n, v]
            # what the failed/last filter received (or, when ok, may have produced)
            v2 = [ran[-1], v] if ran and stage == "none" else v
            r.check(
                c01.same(rl.values, v) or c01.same(rl.values, v2), "wrong-field",
                lambda: "%s at %s: values=%r, not %r" % (text, want, rl.values, v),
            )
        else:
            r.check(rl.values is None, "wrong-field", lambda: "%s at %s: values=%r" % (text, want, rl.values))
        r.probe("success" if stage == "none" else "filter" if lvl == 5 else want)
        if len(names) > 1:
            r.probe("nested")
        r.state((stage, want, prev))
        if prev is not None and prev != stage:
            r.nontrivial = True
        prev = stage
    sf.close()
