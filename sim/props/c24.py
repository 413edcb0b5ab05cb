"""C24: VBA modules get into the workbook whole, or nothing gets saved."""
import os
import shutil
import sys
import tempfile
import types

ID = "C24"
QUICK = 4000
THOROUGH = 120000
RULE = (
    "one run = a scratch folder of VBA-files and a simulated Excel with 1-2 workbooks; 2-5 times modules get imported (through "
    "import_vba_into_excel_workbook() or main()) or removed, while COM-calls fail or get interrupted at drawn points, the user "
    "edits the same workbook between COM-calls, and other processes remove files. Non-trivial: a fault fired or a foreign edit."
)
STATES = "hash of (operation, workbook kind, number of files, existing modules hit, outcome)"
REAL = ["xlsutils: import_vba_into_excel_workbook, main, _remove_vba_modules, and all below", "glob, files of a scratch folder"]
STUB = ["Excel's object model (workbooks, VBProject, VBComponents, saving, alerts)", "xlwings", "win32com's com_error", "easygui"]
PROBES = [
    "imported", "replaced", "nothing", "no_workbook", "locked", "denied", "com_error", "interrupted", "saved", "saved_as", "cloned",
    "unsaved_wb", "sheet_clash", "removed", "retried", "bad_args", "pandalone_modules", "user_edit", "save_fails", "file_gone",
]


class ComError(Exception):
    def __init__(self, hresult, text="", excepinfo=None):
        super().__init__(hresult, text)
        self.hresult = hresult
        self.excepinfo = excepinfo or (0, "Excel", text, None, 0, hresult)


class Comp:
    def __init__(self, xl, name, typ, code):
        object.__setattr__(self, "_", dict(xl=xl, name=name, typ=typ, code=code))

    @property
    def Name(self):
        self._["xl"].call("name?")
        return self._["name"]

    @Name.setter
    def Name(self, v):
        xl = self._["xl"]
        xl.call("rename")
        if any(c is not self and c._["name"].lower() == v.lower() for c in xl.comps):
            raise ComError(-2146788254, "Name conflicts with existing module")
        self._["name"] = v

    @property
    def Type(self):
        self._["xl"].call("type?")
        return self._["typ"]

    @property
    def CodeModule(self):
        self._["xl"].call("code?")
        return types.SimpleNamespace(CountOfLines=self._["code"].count("\n"))


class Comps:
    def __init__(self, xl):
        self.xl = xl

    def __iter__(self):
        return iter(self.xl.comps)  # live, as Excel's enumerators

    @property
    def Count(self):
        return len(self.xl.comps)

    def Item(self, k):
        self.xl.call("item")
        if isinstance(k, int):
            return self.xl.comps[k - 1]
        for c in self.xl.comps:
            if c._["name"].lower() == k.lower():
                return c
        raise ComError(-2147352565, "Subscript out of range")

    def Remove(self, c):
        self.xl.call("remove")
        if c._["typ"] == 100:
            raise ComError(-2147024809, "Cannot remove a document-module")
        if not any(x is c for x in self.xl.comps):
            raise ComError(-2147418113, "gone")
        self.xl.comps[:] = [x for x in self.xl.comps if x is not c]
        self.xl.removed.append(c)

    def Import(self, path):
        self.xl.call("import")
        try:
            with open(path) as f:
                code = f.read()
        except OSError:
            raise ComError(-2147352567, "File not found")
        name = "Module1"
        if code.startswith("Attribute VB_Name = "):
            name = code.split('"')[1]
        base, i = name, 1
        while any(c._["name"].lower() == name.lower() for c in self.xl.comps):
            name = "%s%i" % (base, i)
            i += 1
        c = Comp(self.xl, name, 1, code)
        self.xl.comps.append(c)
        self.xl.fresh.append(c)
        return c


class XlWb:
    """A workbook of the simulated Excel, as its COM-api."""

    def __init__(self, w, folder, name, comps):
        self._w, self._path, self._name = w, folder, name
        self.comps = [Comp(self, *c) for c in comps]
        self.removed, self.fresh, self.saves = [], [], []
        self.protected, self.denied = False, None
        self.Application = w.app

    def call(self, what):
        self._w.call(self, what)

    def snap(self):
        return [(c._["name"], c._["typ"], c._["code"]) for c in self.comps]

    @property
    def Path(self):
        self.call("path?")
        return self._path

    @property
    def Name(self):
        self.call("wbname?")
        return self._name

    @property
    def full(self):
        return self._path + "\\" + self._name if self._path else self._name

    @property
    def FullName(self):
        self.call("fullname?")
        return self.full

    @property
    def VBProject(self):
        self.call("vbproject")
        if self.denied:
            raise ComError(self.denied, "access is not trusted")
        return types.SimpleNamespace(Protection=int(self.protected), VBComponents=Comps(self))

    def Save(self):
        self.call("save")
        if self._path == "":
            raise ComError(-2146827284, "never saved")
        self.saves.append((self.full, self.snap() if self._name.lower().endswith("m") else None))

    def SaveAs(self, path, FileFormat=None, **k):
        self.call("saveas")
        if self._w.app.DisplayAlerts and path == self.full:
            raise ComError(-2146827284, "user declined overwriting")
        self.saves.append((path, self.snap() if FileFormat == 52 else None))
        folder, _, name = path.replace("/", "\\").rpartition("\\")
        self._path, self._name = folder or "C:\\docs", name


class World:
    def __init__(self, r):
        self.r = r
        self.app = types.SimpleNamespace(DisplayAlerts=True)
        self.plan = None  # (countdown, only-what or None, how)
        self.struck = None
        self.actor = None
        self.busy = False

    def call(self, wb, what):
        if self.busy:
            return
        self.busy = True
        try:
            if self.actor:
                self.actor(wb, what)
            p = self.plan
            if p and (p[1] is None or p[1] == what):
                p[0] -= 1
                if p[0] < 0:
                    self.plan = None
                    self.struck = (what, p[2])
                    self.r.fault("%s-%s" % (p[2], what))
                    if p[2] == "interrupt":
                        raise KeyboardInterrupt()
                    if p[2] == "other":
                        self.other = self.r.pick([AttributeError("Excel.Application"), OSError(5, "pipe"), TypeError("no instance")])
                        raise self.other
                    raise ComError(p[2] == "access" and -2147352567 or -2147418111, "simulated")
        finally:
            self.busy = False


NAMES = ["alpha", "Beta", "Gamma_1", "d.e", "Sheet1"]


def run(r):
    root = os.path.realpath(tempfile.mkdtemp(prefix="verif-vba-"))
    cwd = os.getcwd()
    olds = {n: sys.modules.get(n) for n in ("win32com", "win32com.universal", "win32com.client", "xlwings", "easygui")}
    try:
        os.chdir(root)
        _run(r, root)
    finally:
        os.chdir(cwd)
        for n, m in olds.items():
            if m is None:
                sys.modules.pop(n, None)
            else:
                sys.modules[n] = m
        shutil.rmtree(root, ignore_errors=True)


def _run(r, root):
    from pandalone import xlsutils

    w = World(r)
    os.mkdir("vb a")
    serial = [0]

    def newcode(name):
        serial[0] += 1
        head = 'Attribute VB_Name = "%s"\n' % r.pick([name, "Module1", "alpha", name]) if r.chance(60) else ""
        return head + "Sub s%i()\nEnd Sub\n" % serial[0]

    files = {}

    def put(name, ext):
        p = os.path.join("vb a", name + ext)
        files[p] = newcode(name)
        with open(p, "w") as f:
            f.write(files[p])

    for _ in range(r.draw(5)):
        put(r.pick(NAMES[:4] if r.chance(85) else NAMES + ["ALPHA"]), r.pick([".vba", ".vba", ".bas"]))
    wbs = []
    for i in range(1 + r.draw(2)):
        folder, name = r.pick([("C:\\docs", "a.xlsm"), ("C:\\docs", "a.xlsx"), ("", "Book1"), ("C:\\m", "B.XLTM"), ("C:\\docs", "old.xls")])
        comps = [("ThisWorkbook", 100, ""), ("Sheet1", 100, "")]
        for _ in range(r.draw(4)):
            n, t = r.pick(NAMES[:4] + ["Other", "Module1", "Omega"]), r.pick([1, 1, 1, 2])
            n = r.pick([n, n.upper()])
            if n.lower() not in [c[0].lower() for c in comps]:
                comps.append((n, t, newcode(n)))
        x = XlWb(w, folder, name, comps)
        x.protected = r.chance(5)
        x.denied = r.pick([-2147352567, -2147418111]) if r.chance(5) else None
        wbs.append(x)
    shown = []

    def textbox(*a, **k):
        shown.append((a, k))

    books = [types.SimpleNamespace(api=x) for x in wbs]
    active = [r.pick(books + [None]) if r.chance(40) else books[0]]

    def Book(fname):
        for b in books:
            if b.api.full == fname:
                return b
        raise FileNotFoundError(2, fname)

    for n, d in (
        ("win32com", {}), ("win32com.universal", {"com_error": ComError}),
        ("easygui", {"textbox": textbox, "msgbox": textbox}),
    ):
        m = types.ModuleType(n)
        m.__dict__.update(d)
        sys.modules[n] = m
    sys.modules["win32com"].universal = sys.modules["win32com.universal"]

    class Books:
        @property
        def active(self):
            return active[0]

    xw = types.ModuleType("xlwings")
    xw.Book, xw.books = Book, Books()
    sys.modules["xlwings"] = xw

    foreign = []  # of the current operation

    def actor(wb, what):
        if not left[0] or not r.chance(12):
            return
        left[0] -= 1
        k = r.weighted([(3, "add"), (2, "rename"), (2, "del"), (2, "rmfile")])
        if k == "rmfile":
            ps = sorted(p for p in files if os.path.exists(p))
            if not ps:
                return
            p = r.pick(ps)
            os.unlink(p)
            foreign.append(("rmfile", p))
        else:
            n = r.pick(NAMES[:4] + ["Zeta", "Other"])
            taken = [c._["name"].lower() for c in wb.comps]
            if k == "add" or not any(c._["typ"] != 100 for c in wb.comps):
                if n.lower() in taken:
                    return
                wb.comps.append(Comp(wb, n, 1, newcode(n)))
                foreign.append(("add", n))
            else:
                c = r.pick([c for c in wb.comps if c._["typ"] != 100])
                if any(x is c for x in wb.fresh):
                    foreign.append(("undone", c._["name"]))
                foreign.append((k, c._["name"]))
                if k == "del":
                    wb.comps[:] = [x for x in wb.comps if x is not c]
                elif n.lower() not in taken:
                    c._["name"] = n
                    foreign.append(("renamed-to", n))
        r.probe("user_edit")
        r.fault("user-" + k, what)

    left = [0]
    w.actor = actor
    failed = {}
    litter = set()
    for _ in r.ops(2, 5):
        r.tick()
        for p in sorted(files):
            if not os.path.exists(p):
                put(*os.path.splitext(os.path.basename(p)))
        if r.chance(25):
            put(r.pick(NAMES[:4]), ".vba")
        w.plan, w.struck = None, None
        left[0] = r.draw(3) if r.chance(25) else 0
        foreign[:] = []
        if r.chance(45):
            pt = r.pick([None, "import", "rename", "remove", "item", "save", "saveas", "code?", "vbproject", "fullname?"])
            w.plan = [r.draw(12) if pt is None else r.draw(3), pt, r.pick(["com", "com", "interrupt", "access", "other"])]
        what = r.weighted([(6, "import"), (3, "main"), (2, "remove"), (1, "badargs")])
        wild = r.pick([os.path.join("vb a", "*.vba"), os.path.join("vb a", "*.*"), os.path.join(root, "vb a", "*.bas"), "none*", "vb a/[ab]*"])
        import fnmatch

        if what == "badargs":
            args = r.pick([["cmd"], ["cmd", "--bogus"], ["cmd", "--help", "x.xls"]])
            before = [(x.snap(), list(x.saves)) for x in wbs]
            try:
                xlsutils.main(*args)
                r.fail("bad-args", "main%r did not exit" % (args,))
            except SystemExit as ex:
                r.check(ex.code not in (None, 0), "bad-args", "exited normally")
            r.check([(x.snap(), x.saves) for x in wbs] == before, "bad-args-changed", "a workbook got changed")
            r.probe("bad_args")
            continue
        by_name = r.chance(50)
        b = r.pick(books) if by_name else active[0]
        if by_name:
            b = next(x for x in books if x.api.full == b.api.full)
        wb = b and b.api
        shown[:] = []
        before = {id(x): (x.snap(), list(x.saves)) for x in wbs}
        if what == "remove":
            if wb is None or not hasattr(xlsutils, "_remove_vba_modules"):
                continue
            names = [r.pick([n, n.upper(), n.lower()]) for n in [r.pick(NAMES + ["Other", "ThisWorkbook"]) for _ in range(r.draw(4))]]
            left[0] = 0
            if w.plan:
                w.plan[1] = r.pick([None, "remove"])
            exc = None
            wb.removed[:] = []
            try:
                xlsutils._remove_vba_modules(Comps(wb), *names)
            except (Exception, KeyboardInterrupt) as ex:
                exc = ex
            low = {n.lower() for n in names}
            want = [c for c in before[id(wb)][0] if c[1] == 1 and (not names or c[0].lower() in low)]
            gone = [c for c in before[id(wb)][0] if c not in wb.snap()]
            r.log("remove", names, "gone", [g[0] for g in gone], type(exc).__name__)
            r.check(all(g in want for g in gone), "removed-others", lambda: "removing %r also removed %r" % (names, [g[0] for g in gone]))
            if w.struck is None:
                r.check(exc is None and gone == want, "not-removed", lambda: "removing %r removed only %r of %r, %r" % (names, gone, want, exc))
                r.probe("removed")
            else:
                r.check(exc is not None, "failure-swallowed", lambda: "%r but finished normally" % (w.struck,))
            r.check(wb.saves == before[id(wb)][1], "remove-saved", "removing modules saved the workbook")
            r.state(("remove", len(names), len(gone), w.struck))
            continue
        new = None
        full0, path0 = (wb.full, wb._path) if wb else (None, None)
        if by_name or what == "import":
            new = r.pick(["D:\\out.xlsm", "out", full0 or "x", ""]) if r.chance(30) else None
        pandal = what == "main" and r.chance(15)
        if pandal:
            here = {os.path.join(d, n): None for d, _, ns in os.walk(os.path.dirname(xlsutils.__file__)) for n in ns if n.endswith(".vba")}
            r.check(here, "none-shipped", "the package ships no VBA-modules")
        else:
            here = {p: c for p, c in files.items() if fnmatch.fnmatch(os.path.join(root, p), os.path.join(root, wild))}
        for p in list(here):
            with open(p) as f:
                here[p] = f.read()
        exc = None
        res = None
        wb and wb.fresh.__setitem__(slice(None), [])
        try:
            if what == "import":
                kw = {}
                if new is not None:
                    kw["new_fname"] = new
                res = xlsutils.import_vba_into_excel_workbook(wild, *([full0] if by_name else []), **kw)
            else:
                a = ["/usr/bin/cmd", "--pandalone" if pandal else wild]
                if by_name:
                    a.append(full0)
                    if new is not None:
                        a.append(new)
                xlsutils.main(*a)
        except (Exception, KeyboardInterrupt) as ex:
            exc = ex
        w.plan = None
        struck = w.struck
        mods = {}
        for p, c in here.items():
            mods.setdefault(os.path.splitext(os.path.basename(p))[0].lower(), {})[os.path.splitext(os.path.basename(p))[0]] = 1
        codes = {}
        for p, c in here.items():
            codes.setdefault(os.path.splitext(os.path.basename(p))[0].lower(), []).append(c)
        r.log(what, wild.replace(root, "."), "pandalone" if pandal else "", full0, new, "->", repr(exc)[:90].replace(root, "."), "struck", struck, "foreign", foreign)
        r.check(w.app.DisplayAlerts is True, "alerts-off", lambda: "Excel's alerts left off after %r" % exc)
        for x in wbs:
            if x is not wb:
                r.check((x.snap(), x.saves) == before[id(x)], "other-workbook", "another workbook was changed")
        if wb is None:
            r.check(isinstance(exc, ValueError), "no-workbook", lambda: "no active workbook, gave %r" % exc)
            r.probe("no_workbook")
            continue
        snap0, saves0 = before[id(wb)]
        hit = sum(c[0].lower() in codes for c in snap0)
        saves = wb.saves[len(saves0):]
        r.state((what, bool(wb._path), wb._name[-4:].lower(), len(codes), hit, type(exc).__name__, struck, bool(foreign)))
        if struck:
            r.probe("interrupted" if struck[1] == "interrupt" else "com_error")
            if struck[0] in ("save", "saveas"):
                r.probe("save_fails")
            if struck[1] == "interrupt":
                r.check(isinstance(exc, KeyboardInterrupt), "interrupt-lost", lambda: "interrupt ended up as %r" % exc)
            elif struck[1] == "other":
                r.check(exc is not None, "failure-swallowed", lambda: "%r at %s went unnoticed" % (w.other, struck[0]))
        if wb.denied or wb.protected:
            r.check(exc is not None and (struck or not isinstance(exc, AttributeError)), "locked", lambda: "a locked project gave %r" % exc)
            r.check(wb.snap() == snap0 or foreign, "locked-changed", "a locked project got changed")
            r.probe("locked" if wb.protected else "denied")
            if not struck and wb.denied != -2147418111:
                r.check(shown, "not-told", "the user was not told how to unlock")
        if exc is not None:
            # failed: then nothing got saved
            r.check(not saves, "saved-partial", lambda: "failed with %r, but saved %r" % (exc, [s[0] for s in saves]))
            clash = any(c[0].lower() in codes and c[1] == 100 for c in snap0)
            r.check(
                struck or foreign or wb.denied or wb.protected or clash, "unexpected-failure",
                lambda: "failed with %r though nothing was wrong" % exc,
            )
            if clash:
                r.probe("sheet_clash")
            if any(f[0] == "rmfile" for f in foreign):
                r.probe("file_gone")
            failed[id(wb)] = True
            litter.update(c._["code"] for c in wb.fresh)
            if not foreign:
                left_ = {c[0].lower(): c for c in wb.snap()}
                lost = [c for c in snap0 if c[0].lower() not in codes and left_.get(c[0].lower()) != c]
                r.check(not lost, "failed-lost-others", lambda: "while failing, modules %r got lost" % [c[0] for c in lost])
            continue
        r.check(what == "main" or res is b, "wrong-result", lambda: "returned %r, not the workbook" % (res,))
        if not codes and not foreign:
            r.check(not saves and wb.snap() == snap0, "nothing-to-do", "nothing to import, yet it changed or saved the workbook")
            r.probe("nothing")
            continue
        gone = {f[1] for f in foreign if f[0] == "rmfile"}
        if not saves:
            r.check(set(here) <= gone | {os.path.join(root, g) for g in gone}, "not-saved", "finished normally without saving")
            continue
        r.check(len(saves) == 1, "saved-times", lambda: "saved %i times" % len(saves))
        path, mods_saved = saves[0]
        ext = os.path.splitext(full0)[1].lower()
        want = new or (full0 if ext.endswith("m") else full0 + ".xlsm")
        r.check(path == want, "saved-where", lambda: "%r with new_fname=%r was saved as %r, must be %r" % (full0, new, path, want))
        r.probe("saved_as" if new else "saved" if ext.endswith("m") else "cloned")
        if not path0:
            r.probe("unsaved_wb")
        r.check(mods_saved is not None, "macros-dropped", "saved in a format without macros")
        if not foreign:
            for n, cs in codes.items():
                got = [c for c in mods_saved if c[0].lower() == n]
                r.check(
                    len(got) == 1 and got[0][2] in cs and got[0][0] in mods[n] and got[0][1] == 1, "module-missing",
                    lambda: "saved workbook holds %r for module %r of files %r" % (got, n, sorted(here)),
                )
            others = [c for c in snap0 if c[0].lower() not in codes]
            got = [c for c in mods_saved if c[0].lower() not in codes]
            r.check(got == others, "others-changed", lambda: "unrelated modules became %r, were %r" % (got, others))
        else:
            # the user was editing too: still every file is in, as far as the user did not undo it afterwards
            touched = {f[1].lower() for f in foreign if f[0] in ("del", "rename", "renamed-to")}
            gone_names = {os.path.splitext(os.path.basename(g))[0].lower() for g in gone}
            for n, cs in codes.items():
                if any(f[0] == "undone" for f in foreign) or n in touched or n in gone_names:
                    continue
                got = [c for c in mods_saved if c[0].lower() == n]
                r.check(len(got) == 1 and got[0][2] in cs, "module-missing", lambda: "saved workbook holds %r for module %r, %r" % (got, n, foreign))
        r.probe("imported")
        if pandal:
            r.probe("pandalone_modules")
        if hit:
            r.probe("replaced")
        if failed.pop(id(wb), None):
            r.probe("retried")
