"""Baton scheduler: real threads of which exactly one runs, switched at lines of the code under test by the seed.

Locks made by the code under test are replaced by cooperative ones, so that a thread waiting for another one gives the
baton away.
"""
import sys
import threading

from . import core, repo

_Lock, _RLock = threading.Lock, threading.RLock
_cur = None  # running scheduler


class Deadlock(BaseException):
    pass


class SimLock:
    def __init__(self, reentrant):
        self.reentrant = reentrant
        self.owner, self.count = None, 0

    def acquire(self, blocking=True, timeout=-1):
        me = threading.get_ident()
        while self.count and not (self.reentrant and self.owner == me):
            if not blocking or timeout is not None and timeout >= 0:
                return False
            if _cur is None:
                raise Deadlock("waiting for a lock nobody will release")
            _cur.blocked()
        self.owner, self.count = me, self.count + 1
        return True

    def release(self):
        if not self.count:
            raise RuntimeError("release unlocked lock")
        self.count -= 1

    def locked(self):
        return bool(self.count)

    def _is_owned(self):
        return bool(self.count) and self.owner == threading.get_ident()

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()


def _from_repo():
    f = sys._getframe(2)
    for _ in range(4):
        if f is None:
            return False
        fn = f.f_code.co_filename
        if fn.startswith(repo.REPO):
            return True
        if not fn.endswith("threading.py"):
            return False
        f = f.f_back


def install():
    threading.Lock = lambda: SimLock(False) if _from_repo() else _Lock()
    threading.RLock = lambda: SimLock(True) if _from_repo() else _RLock()


class Injected(BaseException):
    """An asynchronous interrupt delivered to a thread."""


def functions_of(fn):
    """-> what `fn` returned, and the functions of the code under test it went through, with their numbers of lines"""
    pre, seen, codes = repo.src_prefix(), {}, set()

    def prof(frame, event, arg):
        if event == "call" and frame.f_code.co_filename.startswith(pre):
            c = frame.f_code
            if c not in codes:
                codes.add(c)
                seen[c.co_name] = max(seen.get(c.co_name, 0), len({ln for _, _, ln in c.co_lines() if ln}))

    sys.setprofile(prof)
    try:
        return fn(), seen
    finally:
        sys.setprofile(None)


class Sched:
    GAPS = [None, 1, 2, 3, 5, 8, 13, 30, 80, 200, 500]

    def __init__(self, r, max_switches=400, dense=False, focus=None):
        self.r, self.dense, self.focus = r, dense, focus
        self.names, self.sems, self.alive = [], [], []
        self.results = {}
        self.gap = None
        self.left = max_switches
        self.switches = 0
        self.lines = 0
        self.kill = {}  # thread -> line countdown
        self.run_of = 0
        self.overlap = False
        self.where = {}

    def _gap(self):
        if self.left <= 0:
            self.gap = None
            return
        self.left -= 1
        if self.dense:
            # every few lines; (a zero, as in shrunk histories, means "never")
            i = self.r.draw(6)
            self.gap = 1 + self.r.draw(4 * i) if i else 1 + self.r.draw(300) if self.r.draw(2) else None
            return
        i = self.r.draw(len(self.GAPS) + 3)
        g = self.GAPS[min(i, len(self.GAPS) - 1)] if i else None
        self.gap = None if g is None else 1 + self.r.draw(g)

    def _switch(self, me, to):
        self.switches += 1
        self.r.log("switch", self.names[me], "->", self.names[to], "at", self.where.get(me))
        self.cur = to
        self.sems[to].release()
        if me in self.alive:
            self.sems[me].acquire()

    def point(self, me, frame):
        self.lines += 1
        if self.lines > 2000000:
            raise core.StepBudget("line budget")
        k = self.kill.get(me)
        if k is not None:
            if k <= 0:
                del self.kill[me]
                raise Injected()
            self.kill[me] = k - 1
        if self.focus:
            # switch (mostly) within the functions chosen
            if self.left > 0 and frame.f_code.co_name in self.focus:
                others = [t for t in self.alive if t != me]
                if others:
                    self.left -= 1
                    if self.r.draw(2):
                        self.where[me] = frame.f_code.co_name
                        self._switch(me, self.r.pick(others))
            return
        if self.gap is None:
            return
        self.gap -= 1
        if self.gap <= 0:
            others = [t for t in self.alive if t != me]
            if not others:
                self.gap = None
                return
            self.where[me] = frame.f_code.co_name
            to = self.r.pick(others)
            self._gap()
            if self.gap is None:
                # ("never switch again" but for the others to finish)
                pass
            self._switch(me, to)

    def blocked(self):
        me = self.ids.get(threading.get_ident())
        others = [t for t in self.alive if t != me]
        if me is None or not others:
            raise Deadlock("all threads wait for locks")
        self.spins += 1
        if self.spins > 20000:
            raise Deadlock("threads wait for each other")
        self._switch(me, self.r.pick(others))

    def run(self, jobs):
        """`jobs`: {name: callable}; returns {name: ("ok", value) | ("raised", exception)}."""
        global _cur
        self.ids, self.spins = {}, 0
        pre = repo.src_prefix()
        done = threading.Semaphore(0)

        def body(i, fn):
            self.sems[i].acquire()
            self.ids[threading.get_ident()] = i

            def local(frame, event, arg):
                if event == "line":
                    self.point(i, frame)
                return local

            def tracer(frame, event, arg):
                if frame.f_code.co_filename.startswith(pre):
                    return local

            try:
                sys.settrace(tracer)
                try:
                    self.results[self.names[i]] = ("ok", fn())
                except BaseException as ex:
                    self.results[self.names[i]] = ("raised", ex)
            finally:
                sys.settrace(None)
                self.alive.remove(i)
                if self.alive:
                    to = self.r.pick(self.alive)
                    if self.gap is None:
                        self._gap()
                    self._switch(i, to)
                else:
                    done.release()

        ts = []
        for i, (n, fn) in enumerate(jobs.items()):
            self.names.append(n)
            self.sems.append(threading.Semaphore(0))
            self.alive.append(i)
            ts.append(threading.Thread(target=body, args=(i, fn), daemon=True))
        for t in ts:
            t.start()
        _cur = self
        hook, sys.unraisablehook = sys.unraisablehook, lambda u: None
        try:
            self._gap()
            self.cur = self.r.pick(list(self.alive))
            self.sems[self.cur].release()
            done.acquire()
        finally:
            _cur = None
            sys.unraisablehook = hook
        for t in ts:
            t.join()
        return self.results
