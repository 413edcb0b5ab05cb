"""C09: real workbooks over a faulty disk and network: exactly the cells' values, or an error."""
import datetime as dt
import gc
import os
import shutil
import tempfile
import urllib.parse as up

from .. import simnet, xlref, xlsx
from . import c01

ID = "C09"
QUICK = 5000
THOROUGH = 120000
RULE = (
    "one run = 1-3 generated XLSX workbooks (1900/1904 dates, times, booleans, errors, blanks, texts, numbers) on a "
    "scratch disk and a simulated HTTP network, and 3-10 lassos/listings through the real reader, urllib and "
    "http.client, while files get truncated, corrupted, removed or replaced and connections are refused, reset, cut "
    "or answered wrongly; everything returned is compared with the workbook generated. Non-trivial: a fault fired and "
    "a later read succeeded."
)
STATES = "hash of (medium, operation, fault kind, outcome, date-system)"
REAL = ["xleash.io._xlrd", "xlrd", "urllib.request, http.client", "SheetsFactory", "Ranger", "utils.path2url/urlpath2path"]
STUB = ["TCP sockets", "disk contents (scratch dir, faults written into files)"]
PROBES = ["local", "remote", "date1904", "date", "time", "errcell", "replaced", "recovered", "sibling", "names", "empty_sheet", "remote_fault", "local_fault", "long_path", "quoted", "digits_name"]


def gen_cell(r):
    k = r.draw(9)
    if k < 2:
        return r.pick([1, -7, 0, 2.5, 1e10, -0.125, 123456789, 2.9999999999, 3.0000001, 1e-9, 4503599627370495.5, 1e300, 9007199254740992, -0.999999999999])
    if k < 4:
        return r.pick(["a", "text here", "é<&>", " pad ", "12", "TRUE", "#DIV/0!", xlsx.Formula(""), xlsx.Formula("res")])
    if k == 4:
        return r.chance(50)
    if k == 5:
        return r.pick(xlsx.ERRORS)
    if k == 6:
        return xlsx.Date(r.pick([61, 400, 36526, 43000, 1462, 2000]) + r.pick([0, 0.25, 0.5, 0.75]))
    if k == 7:
        return xlsx.Date(r.pick([0.25, 0.5, 0.75, 0.5 + 0.25 / 86400, 43205.5 / 86400]))
    return None


def expect(v, d1904):
    if isinstance(v, xlsx.Date):
        s = v.serial
        day = int(s)
        delta = dt.timedelta(milliseconds=round((s - day) * 86400000))
        if day == 0:
            return (dt.datetime(2000, 1, 1) + delta).time()
        base = dt.datetime(1904, 1, 1) if d1904 else dt.datetime(1899, 12, 30)
        return base + dt.timedelta(days=day) + delta
    if isinstance(v, xlsx.Err):
        return float("nan")
    if isinstance(v, xlsx.Formula):
        return v.text
    if isinstance(v, float) and v == int(v):
        return int(v)
    return v


class Wb:
    pass


def gen_book(r):
    b = Wb()
    b.d1904 = r.chance(40)
    big = r.chance(2)
    b.sheets = []
    bares = set()
    for nm in r.pick([["S1", "two words", "Ünï"], ["S1", "two words", "Ünï"], ["1", "S1", "0"], ["2010", "2", "S1"]])[: 1 + r.draw(3)]:
        R, C = r.draw(5), 1 + r.draw(4)
        bare = r.chance(30)
        dens = r.pick([80, 40])
        g = [[gen_cell(r) if r.chance(dens) else None for _ in range(C)] for _ in range(R)]
        while g and all(v is None for v in g[-1]):
            g.pop()
        if bare and not g and not big:
            # rows recorded but without any cell
            bares.add(len(b.sheets))
        while g and g[0] and all(row[-1] is None for row in g):
            for row in g:
                row.pop()
        if big and not b.sheets:
            # above common buffers, also when compressed
            import hashlib

            g.insert(0, [hashlib.shake_128(b"%i" % i).hexdigest(15000) for i in range(C)] * 2)
            for row in g[1:]:
                row += [None] * (2 * C - len(row))
        b.sheets.append((nm, g))
    stored = [(nm, [[None]] * 3 if n in bares else g) for n, (nm, g) in enumerate(b.sheets)]
    b.data, b.spans = xlsx.write(stored, b.d1904, r.chance(50))
    b.exp = [(nm, [[expect(v, b.d1904) for v in row] for row in g]) for nm, g in b.sheets]
    return b


def n_fds():
    try:
        return len(os.listdir("/proc/self/fd"))
    except OSError:
        return 0


def run(r):
    from pandalone import xleash
    from pandalone.xleash.io import _xlrd

    tmp = tempfile.mkdtemp(prefix="c09-")
    r.cleanups.append(lambda: shutil.rmtree(tmp, ignore_errors=True))
    net = simnet.Net(r)
    net.chunk = r.pick([8192, 1, 17, 1000])
    net.install()
    places = []
    for i in range(1 + r.draw(3)):
        b = gen_book(r)
        p = Wb()
        p.book = b
        p.remote = r.chance(40)
        if p.remote:
            p.path = "/dir/b%i.xlsx" % i
            p.wbs = ["http://host" + p.path]
            net.files[p.path] = b.data
            p.url = p.wbs[0]
        else:
            d = tmp
            nm = r.pick(["b%i.xlsx", "with space %i.xlsx", "né%i.XLSX"]) % i
            if r.chance(15):
                d = os.path.join(tmp, *["d" * 120] * 2)
                os.makedirs(d, exist_ok=True)
                r.probe("long_path")
            if " " in nm or "é" in nm:
                r.probe("quoted")
            p.path = os.path.join(d, nm)
            p.url = "file://" + up.quote(p.path)
            p.wbs = [p.url, os.path.relpath(p.path), p.path]
            with open(p.path, "wb") as f:
                f.write(b.data)
        places.append(p)
    be = _xlrd.XlrdBackend()
    fds0 = n_fds()
    sf = xleash.SheetsFactory([be])
    ranger = xleash.Ranger(sf, {})
    damaged = {}  # place-index -> kind of damage
    fired_once = False

    def store(p, data):
        """Make `p` hold `data` (None: missing, "dir": a directory)."""
        if p.remote:
            if data is None or data == "dir":
                net.files.pop(p.path, None)
            else:
                net.files[p.path] = data
            return
        if os.path.isdir(p.path):
            os.rmdir(p.path)
        elif os.path.exists(p.path):
            os.remove(p.path)
        if data == "dir":
            os.mkdir(p.path)
        elif data is not None:
            with open(p.path, "wb") as f:
                f.write(data)

    def damage(p):
        data = p.book.data
        kind = r.pick(["remove", "truncate", "zero", "flip", "garbage", "dir"])
        if kind == "remove":
            data = None
        elif kind == "dir":
            data = "dir"
        elif kind == "truncate":
            data = data[: r.draw(len(data))]
        elif kind == "zero":
            data = b""
        elif kind == "garbage":
            data = b"PK\x03\x04" + b"garbage" * 20
        else:  # (only in CRC-protected data)
            k = r.draw(len(p.book.spans))
            a, z = p.book.spans[k]
            pos = a + r.draw(z - a)
            data = data[:pos] + bytes([data[pos] ^ (1 << r.draw(8))]) + data[pos + 1 :]
        store(p, data)
        r.fault("disk-" + kind)
        return kind

    for _ in r.ops(3, 10):
        pi = r.draw(len(places))
        p = places[pi]
        op = r.weighted([(8, "lasso"), (2, "names"), (2, "recycle"), (2, "replace"), (3, "damage"), (3, "sibling")])
        r.tick()
        if op in ("recycle", "replace", "damage", "sibling"):
            sf.close()
            r.log("recycle")
        if op == "recycle":
            continue
        if op == "replace" or op == "damage" and pi in damaged:
            if op == "replace":
                p.book = gen_book(r)
                r.probe("replaced")
            store(p, p.book.data)
            damaged.pop(pi, None)
            r.log(op, pi)
            continue
        if op == "damage":
            damaged[pi] = damage(p)
            continue
        netf = None
        if p.remote and r.chance(40):
            netf = net.fault = r.pick(
                ["refused", "timeout", "dns", "500", "404", "403", "cut", "reset", "html", "empty"])
        n_fired, n_streams = net.fired, net.open_streams
        wb = r.pick(p.wbs)
        content = p.book.exp
        r.probe("remote" if p.remote else "local")
        res = err = None
        idx = r.draw(len(content))
        nm, grid = content[idx]
        sid = r.pick([str(idx), nm]) if nm.isalnum() and nm.isascii() else str(idx)
        names = [n for n, _ in content]
        if sid in names:
            # names have precedence over indices
            if sid.isdigit():
                r.probe("digits_name")
            nm, grid = content[names.index(sid)]
        kind, vals = "ok", [n for n, _ in content]
        text = op
        if op == "names":
            call = lambda: sf.list_sheetnames(wb)
        elif op == "sibling":
            call = lambda: sf.fetch_sheet(wb, r.pick([None, 0]))
        else:
            if grid and grid[0]:
                a = xlref.gen_ref(r, (len(grid), len(grid[0])), False, filters=False)
                try:
                    kind, st, nd, vals = c01.expected(xlref.Model(grid, True), a, None, False)
                except xlref.Unspecified:
                    net.fault = None
                    continue
                frag = a.text
            else:
                frag = r.pick(["^^:__", ":", "A1:B2"])
                kind, vals = "empty", []
                r.probe("empty_sheet")
            text = "%s#%s!%s" % (wb, sid, frag)
            call = lambda: ranger.do_lasso(text).values
        try:
            res = call()
        except Exception as ex:
            err = ex
        fired = net.fired > n_fired
        net.fault = None
        if fired and netf in ("cut", "html", "empty") and pi not in damaged:
            # not even while the exception (and its frames) live
            r.check(net.open_streams <= n_streams, "leaked-connection", lambda: "%i responses left open after %r" % (net.open_streams, err))
        dmg = damaged.get(pi)
        r.log(op, pi, sid, text.split("#")[-1], "net=%s" % (netf if fired else None), "damage=%s" % dmg, err and "failed")
        r.state((p.remote, op, fired and netf, dmg, err is None, p.book.d1904))
        if fired or dmg:
            if op == "lasso":
                r.check(
                    isinstance(err, (ValueError, type(None))), "wrong-error-kind", lambda: "%s: %r" % (text, err))
            r.check(
                err is not None or (dmg == "flip" and not fired), "fault-swallowed",
                lambda: "%s returned %r despite net=%s, disk=%s" % (text, res, netf, dmg),
            )
            fired_once = True
            r.probe("remote_fault" if fired else "local_fault")
            if err is not None:
                continue
        if op == "sibling":
            r.check(err is None, "spurious-error", lambda: "open raised %r" % err)
            # The file under an open workbook vanishes or changes.
            r.probe("sibling")
            newbook = None
            for again in (content[0][0], 0):
                r.check(sf.fetch_sheet(wb, again) is res, "reopened", lambda: "%s#%r served another sheet-object" % (wb, again))
            how = r.draw(3)
            if how == 1 and not dmg:
                damaged[pi] = damage(p)
            elif how == 2:
                newbook = gen_book(r)
                store(p, newbook.data)
            if not grid or not grid[0]:
                rng, kind, vals = "^^:__", "empty", []
            else:
                rng, kind = "A1:R%iC%i" % (len(grid), len(grid[0])), "ok"
                vals = grid
            text = "#%s!%s" % (sid, rng)
            try:
                res = ranger.do_lasso(text, sheet=res).values
            except Exception as ex:
                err = ex
            r.log("lasso sibling", text, how, err and "failed")
            sf.close()
        if kind == "bad":
            r.check(err is not None, "missed-error", lambda: "%s returned %r" % (text, res))
        else:
            r.check(err is None, "spurious-error", lambda: "%s raised %r, must yield %r" % (text, err, vals))
            r.check(
                c01.same(res, vals), "wrong-values",
                lambda: "%s (1904=%s) on %r: got %r, must be %r" % (text, p.book.d1904, grid, res, vals),
            )
            if fired_once:
                r.nontrivial = True
                r.probe("recovered")
        if op == "sibling" and newbook:
            p.book = newbook
            damaged.pop(pi, None)
        if op == "names":
            r.probe("names")
        if p.book.d1904:
            r.probe("date1904")
        for v in flat(res):
            if isinstance(v, dt.datetime):
                r.probe("date")
            elif isinstance(v, dt.time):
                r.probe("time")
            elif v != v:
                r.probe("errcell")
    sf.close()
    del ranger, sf
    res = err = call = None
    if n_fds() > fds0 or net.open_streams > 0:
        gc.collect()
    r.check(n_fds() <= fds0, "leaked-descriptor", lambda: "%i descriptors left open" % (n_fds() - fds0))
    r.check(net.open_streams <= 0, "leaked-connection", lambda: "%i responses left open" % net.open_streams)


def flat(v):
    if isinstance(v, list):
        for x in v:
            yield from flat(x)
    else:
        yield v
