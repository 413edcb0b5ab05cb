"""A scratch folder whose every look-up or change by the code under test is a point where other (simulated)
processes may act on it, or the system-call may fail; real files underneath, all decisions from the seed."""
import builtins
import errno
import os
import shutil
import tempfile

_real = {n: getattr(os, n) for n in ("stat", "lstat", "mkdir", "access", "rmdir", "unlink", "rename", "open", "scandir", "listdir", "chmod", "chown")}
_open = builtins.open
LOOK = ("stat", "lstat", "access", "scandir", "listdir")


class FsWorld:
    def __init__(self, r):
        self.r = r
        self.root = tempfile.mkdtemp(prefix="verif-fs-")
        self.actor = None  # callable(point-ordinal), a foreign process
        self.plan = {}  # syscall name -> [countdown, errno]
        self.fired = []
        self.history = []  # sets of (path, kind) over time
        self.busy = False
        self.calls = 0
        self.on_call = None
        self.foreign = set()  # what processes of other users made

    def close(self):
        shutil.rmtree(self.root, ignore_errors=True)

    # what is in the folder now: {relpath: kind}
    def listing(self):
        out = {}
        b, self.busy = self.busy, True
        try:
            for d, dirs, files in os.walk(self.root):
                for n in dirs:
                    out[os.path.relpath(os.path.join(d, n), self.root)] = "d"
                for n in files:
                    out[os.path.relpath(os.path.join(d, n), self.root)] = "f"
        finally:
            self.busy = b
        return out

    def mark(self):
        self.history.append(self.listing())

    def _inside(self, p):
        try:
            p = os.fspath(p)
        except TypeError:
            return False
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        if not os.path.isabs(p):
            p = os.path.join(os.getcwd(), p)
        return p.startswith(self.root)

    def _point(self, name, path):
        """Before a system-call: others may act, or it may fail."""
        if self.busy or not self._inside(path):
            return
        self.busy = True
        try:
            self.calls += 1
            if self.actor:
                self.actor(name)
                self.mark()
            if self.on_call:
                self.on_call(name, path)
            if name in ("chmod", "chown") and os.path.relpath(os.path.join(os.getcwd(), path), self.root) in self.foreign:
                self.r.fault(name + "-foreign")
                raise PermissionError(errno.EPERM, os.strerror(errno.EPERM), path)
            a = self.plan.get(name)
            if a is not None:
                a[0] -= 1
                if a[0] < 0:
                    del self.plan[name]
                    self.fired.append((name, a[1]))
                    self.r.fault("%s-%s" % (name, errno.errorcode[a[1]]))
                    raise OSError(a[1], os.strerror(a[1]), path)
        finally:
            self.busy = False

    def __enter__(self):
        def wrap(n):
            real = _real[n]

            def f(path=".", *a, **k):
                self._point(n, path)
                res = real(path, *a, **k)
                if n not in LOOK and not self.busy and self._inside(path):
                    self.mark()
                return res

            return f

        for n in _real:
            setattr(os, n, wrap(n))
        self.mark()
        return self

    def __exit__(self, *a):
        for n, f in _real.items():
            setattr(os, n, f)
        self.mark()

    # foreign processes
    def touch(self, rel):
        b, self.busy = self.busy, True
        try:
            p = os.path.join(self.root, rel)
            if not os.path.lexists(p) and os.path.isdir(os.path.dirname(p)):
                with _open(p, "w"):
                    pass
                self.foreign.add(os.path.normpath(rel))
                return True
        finally:
            self.busy = b

    def mkdir(self, rel):
        b, self.busy = self.busy, True
        try:
            p = os.path.join(self.root, rel)
            if not os.path.lexists(p) and os.path.isdir(os.path.dirname(p)):
                _real["mkdir"](p)
                self.foreign.add(os.path.normpath(rel))
                return True
        finally:
            self.busy = b

    def remove(self, rel):
        b, self.busy = self.busy, True
        try:
            p = os.path.join(self.root, rel)
            self.foreign -= {q for q in self.foreign if (q + "/").startswith(os.path.normpath(rel) + "/")}
            if os.path.isdir(p):
                shutil.rmtree(p)
                return True
            if os.path.lexists(p):
                _real["unlink"](p)
                return True
        finally:
            self.busy = b
