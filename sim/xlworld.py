"""A simulated spreadsheet store behind the real backend/sheet plugin interfaces.

`SimBackend`/`SimSheet` implement pandalone's own `ABCBackend`/`ABCSheet`
seams; everything above them (factory, ranger, parsing, capturing, filters) is
the real code.  The world injects faults in every call crossing the seam and
keeps a ledger of every handle ever opened.
"""
import urllib.parse as up

import numpy as np


class SimIOError(OSError):
    """The injected I/O failure."""


class SimCellError(Exception):
    """Another injected, non-OS failure (corrupted cell-records)."""


# What real backends may raise.
EXCS = [
    SimIOError, SimCellError, SimIOError, SimCellError, RuntimeError, EOFError, IndexError, KeyError, LookupError, ValueError,
    TypeError, AttributeError, AssertionError, MemoryError, PermissionError, TimeoutError, NotImplementedError, StopIteration,
]


VALUES = [1, 2, 7, -3, 2.5, "a", "bb", "Zz top", True, False, 0, "x y", 1e6, "", "é"]


def gen_grid(r, maxr=6, maxc=6, values=VALUES, allow_empty=True):
    """A list-of-lists (None: empty cell); shapes biased to islands and tables."""
    kind = r.draw(5)
    R = 1 + r.draw(maxr)
    C = 1 + r.draw(maxc)
    g = [[None] * C for _ in range(R)]
    if kind == 0:  # a solid table with possible margins
        r0, c0 = r.draw(R), r.draw(C)
        for i in range(r0, R):
            for j in range(c0, C):
                g[i][j] = values[(i * 7 + j * 3 + 1) % len(values)]
        for _ in range(r.draw(4)):
            g[r.draw(R)][r.draw(C)] = None
    elif kind == 1:  # islands
        for _ in range(1 + r.draw(3)):
            r0, c0 = r.draw(R), r.draw(C)
            for i in range(r0, min(R, r0 + 1 + r.draw(3))):
                for j in range(c0, min(C, c0 + 1 + r.draw(3))):
                    g[i][j] = r.pick(values)
    else:
        dens = (25, 50, 80)[kind - 2]
        for i in range(R):
            for j in range(C):
                if r.chance(dens):
                    g[i][j] = r.pick(values)
    if r.chance(4):  # a far island beyond column Z
        pad = 24 + r.draw(4)
        g = [row[:1] + [None] * pad + row[1:] for row in g]
    if not allow_empty and not any(v is not None for row in g for v in row):
        g[0][0] = values[0]
    return g


class Book:
    """An open workbook-handle: a snapshot of the content when opened."""

    def __init__(self, world, url, content, serial):
        self.world = world
        self.url = url
        self.content = content
        self.serial = serial
        self.released = False
        self.live = {}  # sheet-name -> opened sheets, not yet unloaded


class World:
    def __init__(self, r):
        self.r = r
        self.disk = {}  # url -> [(sheet-name, grid), ...]
        self.books = []  # every handle ever opened
        self.sheets = []  # every SimSheet ever made
        self.opens = 0
        self.sheet_cls = None
        self.margin_mode = 0
        self.sibling_wb_id = None  # how siblings call their workbook
        self.armed = {}  # fault point -> (countdown, exception-class, kind)
        self.fired = []
        self.cls = make_classes()

    # -- faults
    def arm(self, point, countdown=0, exc=None):
        self.armed[point] = [countdown, exc or self.r.pick(EXCS)]

    def disarm(self):
        self.armed.clear()

    def hit(self, point, detail=""):
        a = self.armed.get(point)
        if a is None:
            return
        if a[0] > 0:
            a[0] -= 1
            return
        del self.armed[point]
        self.fired.append(point)
        self.r.fault(point, detail)
        raise a[1]("injected %s" % point)

    # -- ledger
    def open_handles(self):
        return [b for b in self.books if not b.released]

    def backend(self, score=50, name="sim", accept=None):
        return self.cls[1](self, score, name, accept)


_classes = None


def make_classes():
    global _classes
    if _classes:
        return _classes
    from pandalone.xleash import Coords
    from pandalone.xleash._capture import EmptyCaptureException
    from pandalone.xleash.io.backend import ABCBackend, ABCSheet, SheetId

    class SimSheet(ABCSheet):
        def __init__(self, book, idx):
            self.book = book
            self.idx = idx
            self.name, grid = book.content[idx]
            self.grid = grid
            self.closed = 0
            self.closed_all = 0
            self.wb_id = book.url
            book.world.sheets.append(self)
            book.live.setdefault(self.name, []).append(self)
            self.serial = len(book.world.sheets)

        # ABCSheet interface
        def _close(self):
            self.closed += 1
            self.book.world.hit("close_sheet", self.name)

        def _close_all(self):
            self.closed_all += 1
            self.book.world.hit("close_book", self.book.url)
            self.book.released = True

        def get_sheet_ids(self):
            return SheetId(self.wb_id, [self.name, self.idx])

        def list_sheetnames(self):
            return [n for n, _ in self.book.content]

        def open_sibling_sheet(self, sheet_id):
            w = self.book.world
            w.hit("open_sibling", sheet_id)
            if self.book.released:
                raise SimIOError("book released")
            sh = SimSheet(self.book, find_sheet(self.book.content, sheet_id))
            if w.sibling_wb_id:
                sh.wb_id = w.sibling_wb_id % self.book.url
            return sh

        def _read_states_matrix(self):
            self.book.world.hit("read_states", self.name)
            return np.array(
                [[v is not None for v in row] for row in self.grid], dtype=bool
            )

        def _read_margin_coords(self):
            w = self.book.world
            w.hit("read_margins", self.name)
            dn = Coords(len(self.grid) - 1, len(self.grid[0]) - 1)
            if w.margin_mode == 1:
                return None, dn
            if w.margin_mode > 1:
                # the backend knows the 1st or both margins
                full = [(i, j) for i, row in enumerate(self.grid) for j, v in enumerate(row) if v is not None] or [(0, 0)]
                up, dn = (Coords(*(f(c[k] for c in full) for k in (0, 1))) for f in (min, max))
                return up, dn if w.margin_mode == 3 else None
            return None, None

        def read_rect(self, st, nd):
            self.book.world.hit("read_rect", self.name)
            g = self.grid

            def cell(i, j):
                if 0 <= i < len(g) and 0 <= j < len(g[0]):
                    return g[i][j]

            if nd is None:
                if not (0 <= st[0] < len(g) and 0 <= st[1] < len(g[0])):
                    raise IndexError("cell out of sheet")
                return g[st[0]][st[1]]
            return [
                [cell(i, j) for j in range(st[1], nd[1] + 1)]
                for i in range(st[0], nd[0] + 1)
            ]

        @property
        def dead(self):
            return bool(self.closed or self.closed_all or self.book.released)

        def __repr__(self):
            return "SimSheet(%s, %s, #%s)" % (self.book.url, self.name, self.serial)

    def find_sheet(content, sheet_id):
        if sheet_id is None:
            sheet_id = 0
        names = [n for n, _ in content]
        if isinstance(sheet_id, str) and sheet_id in names:
            return names.index(sheet_id)
        i = int(sheet_id)
        if not 0 <= i < len(names):
            raise LookupError("no sheet %r" % (sheet_id,))
        return i

    class SimBackend(ABCBackend):
        def __init__(self, world, score, name, accept):
            self.world = world
            self.score = score
            self.name = name
            self.accept = accept
            self.asked = 0

        def bid(self, wb_url):
            self.asked += 1
            self.world.hit("bid", self.name)
            if self.accept is not None and not self.accept(wb_url):
                return None
            return self.score

        def open_book(self, wb_url):
            w = self.world
            w.opens += 1
            w.hit("open_book", wb_url)
            if wb_url not in w.disk:
                raise FileNotFoundError(wb_url)
            content = [(n, [list(row) for row in g]) for n, g in w.disk[wb_url]]
            b = Book(w, wb_url, content, len(w.books))
            b.backend = self
            w.books.append(b)
            return b

        def open_sheet(self, wb_url, sheet_id):
            b = self.open_book(wb_url)
            try:
                i = find_sheet(b.content, sheet_id)
                self.world.hit("open_sheet", sheet_id)
            except BaseException:
                b.released = True
                raise
            return SimSheet(b, i)

        def list_sheetnames(self, wb_url):
            b = self.open_book(wb_url)
            b.released = True
            return [n for n, _ in b.content]

        def __repr__(self):
            return "SimBackend(%s:%s)" % (self.name, self.score)

    _classes = (SimSheet, SimBackend, find_sheet)
    return _classes


def book_url(wb_id):
    """The URL the library documents for `wb_id`: local ids become file-urls."""
    import os

    if up.urlsplit(wb_id).scheme:
        return wb_id
    return "file://" + up.quote(os.path.join(os.getcwd(), wb_id))
