"""C03: workbook resources are conserved: whoever opened them closes them, on every outcome."""
from .. import xlworld

ID = "C03"
QUICK = 12000
THOROUGH = 400000
RULE = (
    "one run = 1-6 client episodes (with-block on a factory, one-shot lasso owning its factory, lasso on a "
    "caller's factory, explicit close) over linked workbooks, with I/O errors, corrupt cells, interrupts and "
    "failing closes armed at any backend call and exceptions thrown by the client; a ledger of every handle "
    "ever opened is audited after each episode. Non-trivial: >=2 handles opened and >=1 fault or client error."
)
STATES = "hash of (episode kind, outcome, opened/closed/failed counts)"
REAL = ["lasso()", "Ranger", "SheetsFactory", "filters (recurse, pipe)"]
STUB = ["backend, workbook handles and I/O"]
PROBES = ["with", "own", "callers", "close_failed", "interrupted", "client_error", "multi_book", "evicted", "close_interrupted", "own_with_sheet"]


class ClientError(Exception):
    pass


class SimInterrupt(KeyboardInterrupt):
    pass


def run(r):
    from pandalone import xleash

    w = xlworld.World(r)
    w.margin_mode = r.draw(4)
    ids = ["a.xlsx", "http://h/b.xlsx", "c.xls"]
    for i, wb in enumerate(ids):
        nxt = ids[i + 1] if i + 1 < len(ids) else None
        g = [["v%i" % i, i], [None, 2.5]]
        if nxt:
            g[1][0] = "%s#0!A1:" % nxt
        w.disk[xlworld.book_url(wb)] = [("S1", g), ("S2", [[i, None]]), ("S3", [["x"]])]
    be = w.backend()
    old = list(xleash.io_backends)
    xleash.io_backends[:] = [be]
    r.cleanups.append(lambda: xleash.io_backends.__setitem__(slice(None), old))

    shared = xleash.SheetsFactory()
    shared_sheets = []

    def arm():
        if not r.chance(60):
            return None
        p = r.pick(
            ["open_book", "open_sheet", "read_states", "read_margins", "read_rect",
             "open_sibling", "bid", "close_book", "close_sheet"]
        )
        e = r.pick([xlworld.SimIOError, xlworld.SimCellError, SimInterrupt])
        if p.startswith("close"):
            e = r.pick([xlworld.SimIOError, xlworld.SimCellError, SimInterrupt])
        w.arm(p, r.draw(4), e)
        armed[:] = [e]
        return p

    armed = []

    def xlref():
        wb = r.pick(ids)
        frag = r.pick(["", "S1!", "S2!", "2!", "nope!"])
        filt = r.pick(["", ":\"recurse\"", ":[\"pipe\",[\"recurse\",[\"redim\",[0,1,1,1,2]]]]", ":\"nofilter\""])
        return "%s#%s%s" % (wb, frag, "A1:" + filt if filt or not frag else r.pick(["A1", "^^:__", "_1", "A9(D)"]))

    def audit(new_sheets, new_books, what, exact=True):
        """Everything opened since must have been closed (or its close refused)."""
        for s in new_sheets:
            r.check(
                s.closed or s.closed_all or s.book.released,
                "leaked-sheet", lambda: "%s left %r open (fired: %s)" % (what, s, w.fired),
            )

    def caught(f):
        try:
            f()
            return "ok"
        except (Exception, KeyboardInterrupt) as ex:
            # nothing else is acceptable as an error but what happened.
            return type(ex).__name__

    for _ in r.ops(1, 6):
        r.tick()
        kind = r.pick(["own", "with", "callers", "close"])
        ns, nb, nf = len(w.sheets), len(w.books), len(w.fired)
        client_err = False
        if kind == "own":
            p = arm()
            x = xlref()
            ctx = {}
            if r.chance(20):
                ctx = {"url_file": r.pick(ids)}
                x = "#" + x.split("#")[1]
            mine = None
            if r.chance(30):
                # the caller's open sheet, as the context; refs in it lead to other books
                a2 = dict(w.armed)
                w.disarm()
                with_sf = xleash.SheetsFactory()
                r.cleanups.append(lambda sf=with_sf: caught(sf.close))
                ctx = {"sheet": with_sf.fetch_sheet(r.pick(ids), None)}
                mine = ctx["sheet"]
                w.armed.update(a2)
                ns, nb = len(w.sheets), len(w.books)
                x = r.pick(["#A1:", "#A1:..(RD):", "#:"]) + r.pick([":\"recurse\"", "", ":{\"func\":\"recurse\",\"opts\":{\"lax\":true}}"])
                if r.chance(30):
                    x = r.pick(ids[:2]) + "#S1!" + x[1:]
                r.probe("own_with_sheet")
            out = caught(lambda: xleash.lasso(x, **ctx))
            r.probe("own")
            r.log("own", x, "fault=%s" % p, out)
            audit(w.sheets[ns:], w.books[nb:], "lasso(%r) -> %s" % (x, out))
            if mine is not None:
                r.check(
                    not (mine.closed or mine.closed_all or mine.book.released), "closed-callers-sheet",
                    lambda: "lasso(%r, sheet=%r) closed its caller's sheet" % (x, mine))
        elif kind == "with":
            p = arm()
            n = 1 + r.draw(4)
            throw = r.draw(5)
            steps = [(r.draw(4), r.pick(ids), r.pick([None, "S1", "S2", 0, 2, "2"]), xlref()) for _ in range(n)]
            seen = []

            def body():
                with xleash.SheetsFactory() as sf:
                    for i, (k, wb, sid, x) in enumerate(steps):
                        if throw == 4 and i == n - 1:
                            raise ClientError()
                        try:
                            if k == 0:
                                xleash.lasso(x, sheets_factory=sf)
                            elif k == 1:
                                seen.append(sf.fetch_sheet(r.pick([wb, xlworld.book_url(wb)]), sid))
                            elif k == 2 and seen:
                                seen.append(sf.fetch_sheet(None, sid, base_sheet=seen[-1]))
                            else:
                                sf.list_sheetnames(wb)
                        except Exception:
                            pass

            client_err = throw == 4
            out = caught(body)
            r.probe("with")
            if client_err:
                r.probe("client_error")
            r.log("with", [s[:3] for s in steps], "fault=%s" % p, "throw=%s" % client_err, out)
            audit(w.sheets[ns:], w.books[nb:], "with-block -> %s" % out)
            if any(s.closed for s in w.sheets[ns:]):
                r.probe("evicted")
        elif kind == "callers":
            p = arm()
            x = xlref()
            pre = [(s.closed, s.closed_all, s.book.released) for s in shared_sheets]
            nclosed = sum(s.closed for s in w.sheets)
            out = caught(lambda: xleash.lasso(x, sheets_factory=shared))
            r.log("callers", x, "fault=%s" % p, out)
            r.probe("callers")
            new = w.sheets[ns:]
            r.check(
                not any(s.closed_all or s.book.released for s in shared_sheets + new),
                "closed-callers-sheet",
                lambda: "lasso(%r) -> %s closed sheets of the caller's factory" % (x, out),
            )
            shared_sheets += new
        else:
            p = arm() if r.chance(50) else None
            out = caught(shared.close)
            r.log("close", "fault=%s" % p, out)
            audit(shared_sheets, (), "factory.close() -> %s" % out)
            if len(w.fired) > nf:
                r.check(out != "ok", "close-error-swallowed", "close() hid a failing sheet")
            n = sum(s.closed_all for s in w.sheets)
            w.disarm()
            shared.close()
            r.check(sum(s.closed_all for s in w.sheets) == n, "not-emptied", "close() -> %s kept its sheets cached" % out)
            shared_sheets = []
        fired = w.fired[nf:]
        w.disarm()
        if fired and armed[0] is SimInterrupt:
            r.check(out == "SimInterrupt", "interrupt-swallowed", lambda: "%s interrupted at %s, ended with %s" % (kind, fired, out))
        elif "close_book" in fired:
            r.check(
                out == armed[0].__name__, "close-error-swallowed", lambda: "%s ended with %s, while %s failed" % (kind, out, fired)
            )
        for f in fired:
            if f.startswith("close"):
                r.probe("close_failed")
                if out == "SimInterrupt":
                    r.probe("close_interrupted")
        if out == "SimInterrupt":
            r.probe("interrupted")
        if len(w.books) - nb > 1:
            r.probe("multi_book")
        r.state((kind, out, len(w.sheets) - ns, tuple(fired)))
    out = caught(shared.close)
    audit(shared_sheets, (), "final close")
    # a closed factory holds nothing anymore
    n = sum(s.closed_all for s in w.sheets)
    shared.close()
    r.check(sum(s.closed_all for s in w.sheets) == n, "not-emptied", "close() kept its sheets cached")
    r.nontrivial = len(w.books) > 1 and bool(w.fired or r.probes["client_error"])
