"""C02: coherence of the caching sheets-factory, by refinement of a small cache model."""
from .. import xlworld

ID = "C02"
QUICK = 16000
THOROUGH = 500000
RULE = (
    "one run = one caching factory over 2-3 simulated workbooks and 4-25 operations: fetch by "
    "url/relative path/alias x name/index/text-index/None, fetch siblings, add pre-loaded sheets under "
    "extra ids, close and reuse, replace the file on disk; open/sibling/backend faults armed. A model "
    "of the documented cache predicts the identity of each sheet served, the number of backend opens and "
    "which sheets got closed. Non-trivial: at least one cache hit and one open."
)
STATES = "hash of the model cache (key -> which sheet, live/closed) after each op"
REAL = ["SheetsFactory", "SimpleSheetsFactory", "utils.path2url"]
STUB = ["backend, workbook handles and I/O"]
PROBES = ["digit_names", "hit", "open", "evict", "sibling_open", "sibling_hit", "added", "closed_reused", "open_failed", "replaced", "renamed_wb", "replaced_close_failed"]


class CacheModel:
    """keys -> sheet object; documented registration and replacement rules."""

    def __init__(self):
        self.d = {}
        self.closed = []  # closed on replacement

    def get(self, wb, sh):
        return self.d.get((wb, sh))

    def add(self, sheet, url, names, wbs, shs):
        keys = [(w, s) for w in [url] + wbs if w for s in names + shs]
        for k in dict.fromkeys(keys):
            old = self.d.get(k)
            if old is not None and old is not sheet:
                self.closed.append(old)
                for kk in [kk for kk, v in self.d.items() if v is old]:
                    del self.d[kk]
            self.d[k] = sheet


def run(r):
    from pandalone import xleash

    w = xlworld.World(r)
    aliases = {}
    for i in range(2 + r.draw(2)):
        wb = ["a.xlsx", "http://h/b.xlsx", "sub/c.xls"][i]
        url = xlworld.book_url(wb)
        aliases[url] = [url] if wb == url else [url, wb]
        n = 1 + r.draw(3)
        names = r.pick([["S1", "two", "S 3"], ["S1", "two", "S 3"], ["S1", "0", "1"], ["2", "two", "0"]])
        w.disk[url] = [(nm, [[i]]) for nm in names[:n]]
        if any(nm.isdigit() for nm in names[:n]):
            r.probe("digit_names")
    urls = list(aliases)
    be = w.backend()
    sf = xleash.SheetsFactory([be])
    SimSheet = w.cls[0]
    if r.chance(25):
        w.sibling_wb_id = "sibling of %s"
        r.probe("renamed_wb")
    m = CacheModel()
    served = []
    opened = hits = 0

    def invariant():
        for s in w.sheets:
            ever_closed = bool(s.closed)
            r.check(
                ever_closed == (s in m.closed), "wrong-close",
                lambda: "%r: closed=%s, but documented: %s" % (s, ever_closed, s in m.closed),
            )
        r.state(sorted((str(k), v.serial, v.dead) for k, v in m.d.items()))

    for _ in r.ops(4, 25):
        r.tick()
        op = r.weighted([(10, "fetch"), (4, "sibling"), (3, "add"), (1, "close"), (1, "replace"), (1, "names")])
        url = r.pick(urls)
        content = w.disk[url]
        if op == "close":
            sf.close()
            for s in set(m.d.values()):
                r.check(s.closed_all > 0, "not-released", lambda: "%r left open by close()" % s)
            m.d.clear()
            r.probe("closed_reused")
            r.log("close")
        elif op == "replace":
            # the file changes on disk: cached sheets remain served
            w.disk[url] = [(nm, [[100 + r.draw(100)]]) for nm, _ in content]
            r.probe("replaced")
            r.log("replace", url)
        elif op == "names":
            got = sf.list_sheetnames(r.pick(aliases[url]))
            r.check(got == [n for n, _ in content], "wrong-names", lambda: "%r != %r" % (got, content))
            r.log("names")
        elif op == "add":
            i = r.draw(len(content))
            b = be.open_book(url)
            s = SimSheet(b, i)
            wbs = r.pick([None, "alias", ["alias", "alias2"], "a.xlsx"])
            shs = r.pick([None, "extra", ["extra", 7], [None]])
            r.log("add", url, i, wbs, shs)
            nf = len(w.fired)
            if r.chance(25):
                w.arm("close_sheet", 0, None)
            err = None
            try:
                sf.add_sheet(s, wbs, shs)
            except Exception as ex:
                err = ex
            w.disarm()
            if len(w.fired) > nf:
                r.probe("replaced_close_failed")
                r.check(err is not None, "close-failure-swallowed", "a replaced sheet failed to close, silently")
            else:
                r.check(err is None, "spurious-error", lambda: "add_sheet() raised %r" % err)
            m.add(s, url, [s.name, s.idx],
                  wbs if isinstance(wbs, list) else [wbs],
                  shs if isinstance(shs, list) else [shs])
            r.probe("added")
        else:
            fp = None
            if r.chance(15):
                fp = r.pick(["open_book", "open_sheet", "open_sibling", "bid"])
                w.arm(fp, 0, None)
            nf, no, ns = len(w.fired), w.opens, len(w.sheets)
            if op == "sibling" and served:
                base = r.pick(served)
                sid = r.pick(
                    [None] + [n for n, _ in base.book.content]
                    + list(range(len(base.book.content))) + ["0", "nope"]
                )
                bc = base.book.content
                exp = base if sid is None else m.get(base.wb_id, sid)
                call = lambda: sf.fetch_sheet(None, sid, base_sheet=base)
                good = sid != "nope" and not base.book.released
                desc = ("sibling", base.serial, sid)
                wb = base.wb_id
                mkurl = base.book.url
            else:
                base = None
                wb = r.pick(aliases[url] + (["alias"] if ("alias", "extra") in m.d else []))
                sid = r.pick([None] + [n for n, _ in content] + list(range(len(content))) + ["0", "nope", "extra"])
                exp = m.get(wb, sid)
                if exp is None and wb == "alias":
                    w.disarm()
                    continue
                other_base = r.pick([None] + served) if served else None
                call = lambda: sf.fetch_sheet(wb, sid, base_sheet=other_base)
                bc = content
                good = sid not in ("nope", "extra")
                desc = ("fetch", wb, sid)
                mkurl = url
            r.log("op", *desc, "fault=%s" % fp)
            try:
                got = call()
                err = None
            except Exception as ex:
                got, err = None, ex
            fired = len(w.fired) > nf
            w.disarm()
            if exp is not None:
                r.check(err is None, "cached-refetch-failed", lambda: "%s: cached, yet raised %r" % (desc, err))
                r.check(
                    got is exp, "not-the-cached-sheet",
                    lambda: "%s: served %r instead of the registered %r" % (desc, got, exp),
                )
                r.check(
                    w.opens == no and len(w.sheets) == ns, "reopened-cached",
                    lambda: "%s: opened the backend again for a cached sheet" % (desc,),
                )
                hits += 1
                r.probe("hit")
                if base is not None:
                    r.probe("sibling_hit")
            elif err is not None:
                r.check(fired or not good, "spurious-error", lambda: "%s raised %r" % (desc, err))
                r.probe("open_failed")
                r.log("-> failed")
                invariant()
                continue
            else:
                r.check(good and not fired, "missed-error", lambda: "%s served %r" % (desc, got))
                want_opens = no + (base is None)
                r.check(
                    w.opens == want_opens and len(w.sheets) == ns + 1, "open-count",
                    lambda: "%s: %i backend-opens, %i sheets" % (desc, w.opens - no, len(w.sheets) - ns),
                )
                m.add(got, got.wb_id, [got.name, got.idx], [wb], [sid])
                opened += 1
                r.probe("open")
                if base is not None:
                    r.probe("sibling_open")
            want = xl_index(bc, sid) if sid not in ("extra", 7) or exp is None else None
            if want is not None and exp is None:
                r.check(
                    got.book.url == mkurl and got.idx == want, "wrong-sheet",
                    lambda: "%s: served %r" % (desc, got),
                )
            if exp is not None or base is None:
                if not (op == "sibling" and sid is None):
                    r.check(
                        not got.closed and not got.book.released, "served-closed",
                        lambda: "%s: served the closed %r" % (desc, got),
                    )
            r.log("-> serial", got.serial)
            served.append(got)
        if m.closed:
            r.probe("evict")
        invariant()
    r.nontrivial = bool(opened and hits)


def xl_index(content, sid):
    names = [n for n, _ in content]
    if sid is None:
        return 0
    if isinstance(sid, int):
        return sid if sid < len(names) else None
    if sid in names:
        return names.index(sid)
    return int(sid) if sid.isdigit() else None
