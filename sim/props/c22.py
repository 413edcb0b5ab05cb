"""C22: programs are located in the order of the search-path, whatever the system's own locator does."""
import os
import subprocess

from ..fsworld import FsWorld, _real

ID = "C22"
QUICK = 5000
THOROUGH = 150000
RULE = (
    "one run = a search-path of 0-5 scratch folders (missing, quoted, duplicated, with executables, plain files, "
    "directories, Windows-like extensions) changed by other simulated processes between and within 3-10 look-ups, while the "
    "system's `where` command is missing, fails, gets interrupted or answers; results are compared with the folders' history. "
    "Non-trivial: a look-up after a change of the folders."
)
STATES = "hash of (path shape, locator's behaviour, number found)"
REAL = ["utils.py_where, where, which", "files of a scratch folder"]
STUB = ["`where` command", "other processes"]
PROBES = ["found", "missing", "many", "not_exec", "dir", "quoted", "winext", "where_ok", "where_fails", "where_missing", "where_blank", "changed_within", "explicit_path", "interrupted"]


def run(r):
    from pandalone import utils

    w = FsWorld(r)
    old_path = os.environ.get("PATH")
    old_sp = {n: getattr(subprocess, n) for n in ("check_output", "run", "Popen")}
    try:
        dirs = ["p0", "p1", "p 2", "p3"]
        for d in dirs[: 1 + r.draw(4)]:
            w.mkdir(d)
        progs = ["prog", "tool.sh", "x"]
        exts = ["", ".bat", ".com", ".exe", ".txt", "com"]

        def put(d, n, kind):
            p = os.path.join(w.root, d, n)
            if kind == "dir":
                return w.mkdir(os.path.join(d, n))
            if w.touch(os.path.join(d, n)):
                os.chmod(p, 0o755 if kind == "exec" else 0o644)
                return True

        def change():
            d, n = r.pick(dirs), r.pick(progs) + r.pick(exts)
            k = r.weighted([(4, "exec"), (2, "plain"), (1, "dir"), (3, "remove"), (1, "chmod")])
            if k == "remove":
                ok = w.remove(os.path.join(d, n))
            elif k == "chmod":
                p = os.path.join(w.root, d, n)
                ok = os.path.isfile(p)
                if ok:
                    os.chmod(p, 0o644 if os.stat(p).st_mode & 0o100 else 0o755)
            else:
                ok = put(d, n, k)
            if ok:
                r.fault("other-" + k)
                r.log("change", d, n, k)
            return ok

        for _ in range(r.draw(8)):
            change()
        mode = {}

        def locator(cmd, k):
            """-> (return-code, output)"""
            m = mode["m"]
            r.log("where", m)
            if m == "missing":
                raise FileNotFoundError(2, "where")
            if m == "oserror":
                r.fault("where-oserror")
                raise PermissionError(13, "where")
            if m == "interrupt":
                r.fault("where-interrupt")
                raise KeyboardInterrupt()
            if m == "fails":
                r.fault("where-fails")
                return 1, ""
            text = any(k.get(x) for x in ("text", "universal_newlines", "encoding"))
            return 0, mode["out"] if text else mode["out"].encode()

        def run_(cmd, *a, check=False, **k):
            rc, out = locator(cmd, k)
            if check and rc:
                raise subprocess.CalledProcessError(rc, cmd)
            return subprocess.CompletedProcess(cmd, rc, out, out[:0])

        class Popen:
            def __init__(self, cmd, *a, **k):
                self.args = cmd
                self.rc, self.out = locator(cmd, k)
                self.returncode = None

            def communicate(self, *a, **k):
                self.returncode = self.rc
                return self.out, self.out[:0]

            def wait(self, *a, **k):
                self.returncode = self.rc
                return self.rc

            poll = wait
            __enter__ = lambda self: self
            __exit__ = lambda self, *a: None

        subprocess.check_output = lambda cmd, *a, **k: run_(cmd, *a, check=True, **k).stdout
        subprocess.run, subprocess.Popen = run_, Popen
        changed = True
        for _ in r.ops(3, 10):
            r.tick()
            if r.chance(35):
                changed = bool(change()) or changed
                continue
            prog = r.pick(progs)
            path = []
            for _ in range(r.draw(6)):
                d = r.pick(dirs)
                p = os.path.join(w.root, d)
                q = r.chance(15)
                if q:
                    r.probe("quoted")
                path.append('"%s"' % p if q else p if r.chance(90) else "")
            ptxt = os.pathsep.join(path)
            folders = [x.strip('"') for x in path if x]
            os.environ["PATH"] = ptxt
            what = r.weighted([(4, "py_where"), (3, "where"), (3, "which")])
            mode["m"] = m = r.pick(["missing", "missing", "fails", "ok", "oserror", "interrupt"])
            ans = [os.path.join(w.root, r.pick(dirs), prog) for _ in range(r.draw(3))]
            mode["out"] = r.pick(["\n", "\r\n"]).join(ans) + r.pick(["", "\n", "  \n\n"])
            cands = [os.path.join(f, prog) + e for f in folders for e in ("", ".bat", ".com", ".exe")]

            def execs():
                # (simulator's own look, not a scheduling point)
                b, w.busy = w.busy, True
                try:
                    return {c for c in cands if os.path.isfile(c) and os.stat(c).st_mode & 0o100}
                finally:
                    w.busy = b

            snaps = [execs()]
            acted = []
            left = [r.draw(3) if r.chance(30) else 0]

            def actor(name):
                if left[0] and r.chance(30):
                    left[0] -= 1
                    if change():
                        acted.append(1)
                        snaps.append(execs())

            w.actor = actor
            got = intr = None
            with w:
                try:
                    if what == "py_where":
                        if r.chance(50) and ptxt:
                            os.environ["PATH"] = "/nonexistent"
                            r.probe("explicit_path")
                            got = utils.py_where(prog, ptxt)
                        else:
                            got = utils.py_where(prog)
                    elif what == "where":
                        got = utils.where(prog)
                    else:
                        got = utils.which(prog)
                except KeyboardInterrupt as ex:
                    intr = ex
            w.actor = None
            r.log(what, prog, [os.path.relpath(x, w.root) for x in folders], m, repr(got).replace(w.root, "."))
            if m == "interrupt" and what != "py_where":
                r.check(intr is not None, "interrupt-swallowed", lambda: "%s interrupted gave %r" % (what, got))
                r.state((what, m))
                r.probe("interrupted")
                continue
            r.check(intr is None, "spurious-interrupt", lambda: "%s raised %r" % (what, intr))
            fallback = what == "py_where" or m in ("missing", "oserror")
            r.state((what, m if what != "py_where" else "", len(folders), len(got or ()) if what != "which" else got is None, bool(acted)))
            if not fallback:
                want = [] if m == "fails" else ans
                if what == "which":
                    want = want[0] if want else None
                r.check((got or None) == (want or None), "wrong-answer", lambda: "%s with locator %s gave %r, must be %r" % (what, m, got, want))
                r.probe("where_fails" if m == "fails" else "where_ok" if ans else "where_blank")
                continue
            if m == "missing":
                r.probe("where_missing")
            ever, always = set().union(*snaps), set.intersection(*snaps)
            if what == "which":
                if got is None:
                    r.check(not always, "missed", lambda: "which(%s) gave none, but %r were there" % (prog, always))
                else:
                    k = cands.index(got) if got in cands else -1
                    r.check(got in ever, "not-executable", lambda: "which(%s) gave %r, not an executable in the path" % (prog, got))
                    r.check(
                        not any(c in always for c in cands[:k]), "wrong-order",
                        lambda: "which(%s) gave %r, but %r came earlier" % (prog, got, [c for c in cands[:k] if c in always]),
                    )
            else:
                r.check(
                    all(g in ever for g in got), "not-executable", lambda: "%s(%s) gave %r, executables are %r" % (what, prog, got, ever)
                )
                want = [c for c in cands if c in always]
                r.check(
                    [g for g in got if g in always] == want, "wrong-order",
                    lambda: "%s(%s) gave %r, must contain %r in this order" % (what, prog, got, want),
                )
            n = len(ever)
            r.probe("found" if n else "missing")
            if n > 1:
                r.probe("many")
            if any(c.endswith((".bat", ".com", ".exe")) for c in ever):
                r.probe("winext")
            for c in cands:
                if os.path.isdir(c):
                    r.probe("dir")
                elif os.path.isfile(c) and c not in ever:
                    r.probe("not_exec")
            if acted:
                r.probe("changed_within")
            if changed:
                r.nontrivial = True
            changed = False
    finally:
        for n, f in old_sp.items():
            setattr(subprocess, n, f)
        if old_path is None:
            os.environ.pop("PATH", None)
        else:
            os.environ["PATH"] = old_path
        w.close()
