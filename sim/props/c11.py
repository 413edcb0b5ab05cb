"""C11: each workbook goes to the highest bidder, decided anew for each opening."""
from .. import xlworld

ID = "C11"
QUICK = 12000
THOROUGH = 400000
RULE = (
    "one run = 0-5 simulated backends with drawn bids (negative, zero, abstentions per URL), registered and removed "
    "while caching and non-caching factories fetch sheets, siblings and names, with bids and openings failing; which "
    "backend served, what every backend was asked, and errors are checked against the documented auction. "
    "Non-trivial: >=2 bidders and both a success and a failure."
)
STATES = "hash of (bids, operation, factory kind, fault, outcome)"
REAL = ["SimpleSheetsFactory", "SheetsFactory", "utils.path2url"]
STUB = ["backends"]
PROBES = ["zero_bid", "negative_bid", "abstain", "nobody", "bid_failed", "open_failed", "no_sheet", "sibling", "late_registered", "simple", "tie", "other_default"]


def run(r):
    from pandalone import xleash
    from pandalone.xleash.io.backend import ABCBackend, SimpleSheetsFactory

    w = xlworld.World(r)
    ids = ["a.xlsx", "http://h/b.xls", "/srv/dir/c.xlsx", "file:///x/e.xlsx"]
    for i, wb in enumerate(ids):
        w.disk[xlworld.book_url(wb)] = [("S1", [[i]]), ("S2", [[-i]])]

    class Bidder(w.cls[1]):
        def bid(self, url):
            self.urls.append(url)
            w.hit("bid:%i" % self.n)
            return self.bids.get(url)

        def open_sheet(self, url, sid):
            if self.nosheet:
                r.fault("backend-found-nothing")
                return None
            self.opened += 1
            return super().open_sheet(url, sid)

        def list_sheetnames(self, url):
            self.opened += 1
            return super().list_sheetnames(url)

    count = [0]

    def new():
        b = Bidder(w, 0, "be%i" % count[0], None)
        b.n = count[0]
        count[0] += 1
        b.urls = []
        b.opened = 0
        b.nosheet = r.chance(6)
        b.bids = {}
        for wb in ids:
            x = r.weighted([(4, "n"), (2, None), (1, 0), (1, "neg"), (1, "float"), (1, "big")])
            v = {"n": 1 + r.draw(4) * 10, "neg": -5, "float": 3.5}.get(x, x)
            if x == "big":
                v = r.pick([100, 101, 100.5, 1000, 99])
            b.bids[xlworld.book_url(wb)] = v
        return b

    old = list(xleash.io_backends)
    r.cleanups.append(lambda: xleash.io_backends.__setitem__(slice(None), old))
    xleash.io_backends[:] = [new() for _ in range(r.draw(4))]
    own = [new() for _ in range(1 + r.draw(4))]
    facts = [
        (SimpleSheetsFactory(own), own, True), (xleash.SheetsFactory(own), own, False),
        (SimpleSheetsFactory(), xleash.io_backends, True), (xleash.SheetsFactory(), xleash.io_backends, False),
        (xleash.SheetsFactory([]), xleash.io_backends, False),
    ]
    served = {i: [] for i in range(len(facts))}
    okd = failed = 0
    for _ in r.ops(3, 14):
        r.tick()
        if r.chance(15):
            lst = r.pick([own, xleash.io_backends])
            if lst and r.chance(40):
                if len(lst) > 1 or lst is not own:
                    lst.pop(r.draw(len(lst)))
            else:
                lst.insert(r.draw(len(lst) + 1), new())
                r.probe("late_registered")
            r.log("registry", len(own), len(xleash.io_backends))
            continue
        fi = r.draw(len(facts))
        sf, bes, simple = facts[fi]
        if fi > 1:
            r.probe("other_default")
        if simple:
            r.probe("simple")
        op = r.weighted([(6, "fetch"), (2, "names"), (3, "sibling"), (2, "decide")])
        for b in bes:
            del b.urls[:]
            b.opened = 0
        if op == "sibling":
            if not served[fi]:
                continue
            base = r.pick(served[fi])
            sid = r.pick([None, "S1", "S2", 0, 1])
            ns, no = len(w.sheets), w.opens
            if r.chance(10):
                w.arm("open_sibling")
            try:
                got, err = sf.fetch_sheet(None, sid, base_sheet=base), None
            except Exception as ex:
                got, err = None, ex
            fired = "open_sibling" not in w.armed and bool(w.fired) and w.fired[-1] == "open_sibling" and err is not None
            w.disarm()
            r.log("sibling", fi, sid, err and type(err).__name__)
            r.check(
                not any(b.urls for b in bes) and w.opens == no, "sibling-reopened",
                "a sibling request made backends bid, or re-opened the workbook",
            )
            if fired:
                continue
            r.check(err is None, "spurious-error", lambda: "sibling %r: %r" % (sid, err))
            r.check(got is not None, "wrong-sheet", "sibling fetch returned nothing")
            if sid is None:
                r.check(got is base, "wrong-sheet", "no sheet-id: not the base itself")
            else:
                want = {"S1": 0, "S2": 1}.get(sid, sid)
                r.check((got.book is base.book if simple else got.book.url == base.book.url) and got.idx == want, "wrong-sheet", lambda: "sibling %r: %r" % (sid, got))
                if simple:
                    r.check(len(w.sheets) == ns + 1, "wrong-sheet", "non-caching factory served a stale sibling")
            served[fi].append(got)
            r.probe("sibling")
            continue
        wb = r.pick(ids)
        url = xlworld.book_url(wb)
        bids = [(b, b.bids[url]) for b in bes]
        bad = None
        if r.chance(12) and bes:
            k = r.pick(bes)
            bad = ("bid", k)
            w.arm("bid:%i" % k.n)
        elif r.chance(12):
            bad = ("open", None)
            w.arm("open_book")
        scored = [(s, b) for b, s in bids if s is not None]
        top = max([s for s, _ in scored]) if scored else None
        winners = [b for s, b in scored if s == top]
        if len(winners) > 1:
            r.probe("tie")
        if len(scored) < len(bids):
            r.probe("abstain")
        sid = r.pick(["S1", "S2", 0, 1, None])
        base = r.pick(served[fi]) if served[fi] and r.chance(40) else None
        call = {
            "fetch": lambda: sf.fetch_sheet(wb, sid, base), "names": lambda: sf.list_sheetnames(wb),
            "decide": lambda: sf.decide_backend(wb),
        }[op]
        nf = len(w.fired)
        try:
            got, err = call(), None
        except Exception as ex:
            got, err = None, ex
        fired = w.fired[nf:]
        w.disarm()
        r.log(op, fi, wb, sid, [s for _, s in bids], bad and bad[0], err and type(err).__name__)
        r.state((op, simple, tuple(s for _, s in bids), bad and bad[0], err and type(err).__name__))
        if op == "fetch" and not simple and not any(b.urls for b in bes) and err is None:
            # served from cache: C02's business, but it must be that sheet
            want = {"S1": 0, "S2": 1, None: 0}.get(sid, sid)
            r.check(got.book.url == url and got.idx == want, "wrong-sheet", lambda: "cached %r for %r!%r" % (got, wb, sid))
            served[fi].append(got)
            continue
        for b in bes:
            for u in b.urls:
                r.check(u == url, "wrong-bid-url", lambda: "asked to bid for %r instead of %r" % (u, url))
        if fired:
            failed += 1
            r.probe("bid_failed" if bad[0] == "bid" else "open_failed")
            r.check(err is not None, "fault-swallowed", lambda: "%s returned %r although %s failed" % (op, got, fired))
            continue
        if not winners:
            failed += 1
            r.probe("nobody")
            r.check(isinstance(err, ValueError), "wrong-error-kind", lambda: "nobody bid, yet %r / %r" % (got, err))
            continue
        if op == "fetch" and all(b.nosheet for b in winners):
            failed += 1
            r.probe("no_sheet")
            r.check(isinstance(err, ValueError), "wrong-error-kind", lambda: "no sheet found, yet %r / %r" % (got, err))
            continue
        if op == "fetch" and any(b.nosheet for b in winners):
            if err is not None:
                continue
        r.check(err is None, "spurious-error", lambda: "%s %r (bids %r): %r" % (op, wb, bids, err))
        if top == 0:
            r.probe("zero_bid")
        if top is not None and top < 0:
            r.probe("negative_bid")
        who = got if op == "decide" else None
        if op == "fetch":
            who = got.book.backend
        elif op == "names":
            who = w.books[-1].backend
            r.check(got == ["S1", "S2"], "wrong-names", lambda: "%r" % (got,))
        r.check(who in winners, "wrong-backend", lambda: "%s %r: bids %r, served by %r" % (op, wb, bids, who))
        if op == "fetch":
            r.check(
                not any(b.opened for b in bes if b is not who) and who.opened == 1, "wrong-backend",
                lambda: "%r opened by %r" % (wb, [(b, b.opened) for b in bes]),
            )
            want = {"S1": 0, "S2": 1, None: 0}.get(sid, sid)
            r.check(got.book.url == url and got.idx == want, "wrong-sheet", lambda: "%r for %r!%r" % (got, wb, sid))
            served[fi].append(got)
        okd += 1
        if len(scored) > 1 and okd and failed:
            r.nontrivial = True
    for sf, _, simple in facts:
        if not simple:
            sf.close()
