"""C23: bumping a version is all-or-stop: files, then doc-tests, then commit, then tag, and nothing after a failure."""
import builtins
import contextlib
import datetime
import io
import os
import shutil
import subprocess
import sys
import tempfile
import time
import types

from .. import repo

ID = "C23"
QUICK = 2500
THOROUGH = 60000
RULE = (
    "one run = 2-6 invocations of bin/bumpver's main() (show, bump, dry-run, forced, with commit and/or tag, wrong arguments) "
    "on a scratch tree with a simulated git, a simulated (jumping) clock and simulated doc-tests, with reads, writes, "
    "git-commands, tests and output failing or being interrupted at drawn points and the user editing or restoring the "
    "tree in between. Non-trivial: a fault fired, or a bump after a previous one in the same process."
)
STATES = "hash of (kind of invocation, options, outcome, steps performed)"
REAL = ["bin/bumpver.py, whole", "docopt", "unittest loader and runner", "files of a scratch folder"]
STUB = ["git (a model of worktree, index, commits, tags)", "clock", "tests/test_docs.py (records what it sees)", "stdout"]
PROBES = [
    "shown", "bumped", "dry", "same_refused", "same_forced", "committed", "tagged", "tests_fail", "tests_error", "tests_import_error",
    "git_add_fails", "git_commit_fails", "git_tag_fails", "git_missing", "write_fails", "read_fails", "interrupted", "stdout_fails",
    "second_bump", "recovered", "no_version",
]

VERS = ["0.1.0", "0.1.1", "0.2.0a1", "1.0", "0.1.0+loc.1", "10.1.0", "12", "13"]


class SimInterrupt(KeyboardInterrupt):
    pass


def run(r):
    root = os.path.realpath(tempfile.mkdtemp(prefix="verif-bump-"))
    saved_mods = {k: v for k, v in sys.modules.items() if k == "tests" or k.startswith("tests.")}
    path0 = list(sys.path)
    cwd0 = os.getcwd()
    try:
        _run(r, root)
    finally:
        os.chdir(cwd0)
        sys.path[:] = path0
        for k in [k for k in sys.modules if k == "tests" or k.startswith("tests.")]:
            del sys.modules[k]
        sys.modules.update(saved_mods)
        sys.modules.pop("_verif_bump_hook", None)
        shutil.rmtree(root, ignore_errors=True)


def _run(r, root):
    for k in [k for k in sys.modules if k == "tests" or k.startswith("tests.")]:
        del sys.modules[k]
    for d in ("bin", "pandalone", "tests", "elsewhere"):
        os.mkdir(os.path.join(root, d))
    V, R, O = (os.path.join(root, *p.split("/")) for p in ("pandalone/_version.py", "README.rst", "other.txt"))
    bfile = os.path.join(root, "bin", "bumpver.py")
    src = os.path.join(repo.REPO, "bin", "bumpver.py")
    shutil.copy(src, bfile)
    pkg = types.ModuleType("tests")
    pkg.__path__ = [os.path.join(root, "tests")]
    sys.modules["tests"] = pkg
    ropen = builtins.open
    os.chdir(os.path.join(root, r.pick([".", "bin", "elsewhere"])))
    open_calls = [0]

    def rd(p):
        with ropen(p, "rb") as f:
            return f.read().decode("utf-8")

    def wr(p, t):
        with ropen(p, "wb") as f:
            f.write(t.encode("utf-8"))

    wr(os.path.join(root, "tests", "__init__.py"), "")
    wr(
        os.path.join(root, "tests", "test_docs.py"),
        "import unittest\nimport _verif_bump_hook as hk\nhk.imported()\n"
        "class T(unittest.TestCase):\n    def test_a(self):\n        hk.tested(self)\n    def test_b(self):\n        hk.tested(self)\n",
    )
    clock = [datetime.datetime(2020 + r.draw(5), 1 + r.draw(12), 3, 4, 5, 6)]
    ver = r.pick(VERS)
    # A decoy where only a regex reading of the version's dots would match.
    decoy = ver.replace(".", "x") + " été"

    def vtext(v, d):
        return '# head\n__version__ = "%s"  # and %s\n__updated__ = "%s"\nversion = __version__\n' % (v, decoy, d)

    locale_ = r.pick(["utf-8", "cp1253", "ascii"])
    d0 = "2015-03-04 05:06"
    wr(V, vtext(ver, d0))
    wr(R, "Project\n:version: %s\n:date: %s\nInstall %s or pkg-%s.tgz; decoy %s.\n" % (ver, d0, ver, ver, decoy))
    wr(O, "pristine " + ver)
    names = {V: "V", R: "R", O: "O"}

    class Git:
        head = {p: rd(p) for p in names}
        index = dict(head)
        commits = []
        tags = []

    wr(O, "changed by the user " + ver)
    ev = []  # everything that happened in this invocation, in order
    arm = {}

    def fire(kind):
        """Whether the armed fault `kind` strikes now."""
        a = arm.get(kind)
        if a is None:
            return None
        a[0] -= 1
        if a[0] >= 0:
            return None
        del arm[kind]
        r.fault(kind, a[1])
        ev.append(("FAULT", kind, a[1]))
        return a[1]

    def git(cmd, *a, **k):
        if isinstance(cmd, str):
            import shlex

            cmd = shlex.split(cmd)
        cmd = list(cmd)
        r.log("exec", [os.path.relpath(c, root) if os.path.isabs(c) else c for c in cmd])
        if not (len(cmd) > 1 and cmd[0] == "git" and cmd[1] in ("add", "commit", "tag")):
            ev.append(("other-cmd", tuple(cmd)))
            return 0
        what = cmd[1]
        f = fire("git-" + what)
        if f == "missing":
            raise FileNotFoundError(2, "No such file or directory: 'git'")
        if f == "interrupt":
            raise SimInterrupt()
        if f:
            return r.pick([1, 128, -9])
        base = k.get("cwd") or os.getcwd()
        args = cmd[2:]
        if what == "add":
            for p in args:
                if p.startswith("-"):
                    if p in ("-A", "-u", "--all"):
                        for q in names:
                            Git.index[q] = rd(q)
                    continue
                p = os.path.normpath(os.path.join(base, p))
                for q in [q for q in names if q == p or q.startswith(p + os.sep)]:
                    Git.index[q] = rd(q)
        elif what == "commit":
            if any(x in ("-a", "-am", "--all") for x in args):
                for q in names:
                    Git.index[q] = rd(q)
            if Git.index == Git.head:
                return 1
            Git.head = dict(Git.index)
            msg = args[args.index("-m") + 1] if "-m" in args else ""
            Git.commits.append((msg, dict(Git.head)))
        else:
            msg = args[args.index("-m") + 1] if "-m" in args else ""
            name = [x for i, x in enumerate(args) if not x.startswith("-") and (not i or args[i - 1] not in ("-m",))]
            if not name:
                return 128
            if name[0] in [t[0] for t in Git.tags]:
                if not set(args) & {"-f", "--force"}:
                    return 128
                ev.append(("moved-tag", name[0]))
            Git.tags.append((name[0], msg, "-s" in args, dict(Git.head)))
        ev.append(("git", what))
        return 0

    def checked(cmd, *a, **k):
        e = git(cmd, *a, **k)
        if e:
            raise subprocess.CalledProcessError(e, cmd)
        return 0

    def run_(cmd, *a, **k):
        e = checked(cmd, *a, **k) if k.get("check") else git(cmd, *a, **k)
        return subprocess.CompletedProcess(cmd, e, "", "")

    def popen(*a, **k):
        raise AssertionError("unmodelled way to run commands")

    hk = types.ModuleType("_verif_bump_hook")
    sys.modules["_verif_bump_hook"] = hk

    def imported():
        ev.append(("tests-import", rd(V), rd(R)))
        if fire("tests-import"):
            raise ImportError("cannot import docs")

    def tested(tc):
        ev.append(("tests-run", rd(V), rd(R)))
        f = fire("tests")
        if f == "fails":
            tc.fail("docs mismatch")
        if f == "errors":
            raise RuntimeError("docs broken")
        if f == "interrupt":
            raise SimInterrupt()

    hk.imported, hk.tested = imported, tested

    class DT(datetime.datetime):
        @classmethod
        def now(cls, tz=None):
            dt = r.pick([0, 1, 61, 86400, -3600]) if r.chance(60) else 1
            if dt < 0 or dt > 1000:
                r.fault("clock-jump")
            r.tick(abs(dt))
            clock[0] += datetime.timedelta(seconds=dt)
            seen.append(clock[0].strftime("%Y-%m-%d %H:%M:%S"))
            return clock[0]

        @classmethod
        def today(cls):
            return cls.now()

    class Torn:
        def __init__(self, f, how):
            self.f, self.how = f, how

        def __enter__(self):
            return self

        def __exit__(self, *a):
            self.f.close()

        def __getattr__(self, n):
            return getattr(self.f, n)

        def _strike(self):
            if self.how == "interrupt":
                raise SimInterrupt()
            raise OSError(28 if self.how == "enospc" else 5, "simulated")

        def write(self, t):
            self.f.write(t[: len(t) // 2])
            self._strike()

        def read(self, *a):
            self._strike()

    def sim_open(file, mode="r", *a, **k):
        if not (isinstance(file, (str, os.PathLike)) and os.path.abspath(os.fspath(file)) in names):
            return ropen(file, mode, *a, **k)
        wrt = any(c in mode for c in "wax+")
        pre = len(ev)
        if "b" not in mode and not k.get("encoding") and len(a) < 2:
            k["encoding"] = locale_  # (that of the machine)
        f = fire("write" if wrt else "read")
        if f == "denied":
            raise PermissionError(13, "simulated", file)
        fd = ropen(file, mode, *a, **k)
        if wrt:
            ev.insert(pre, ("write", names[os.path.abspath(os.fspath(file))]))
        return Torn(fd, f) if f else fd

    class Out(io.StringIO):
        def write(self, t):
            f = fire("stdout")
            if f == "interrupt":
                raise SimInterrupt()
            if f:
                raise BrokenPipeError(32, "simulated")
            return super().write(t)

    with ropen(src, encoding="utf-8") as f:
        code = compile(f.read(), src, "exec")
    g = {"__name__": "bumpver", "__file__": bfile}
    exec(code, g)
    main = g["main"]
    seen = []
    bumps = 0
    failed_before = False
    real_dt = datetime.datetime
    real_clocks = {n: getattr(time, n) for n in ("time", "time_ns", "localtime", "gmtime", "strftime")}
    clocks = {
        "time": lambda: DT.now().timestamp(),
        "time_ns": lambda: int(DT.now().timestamp()) * 10 ** 9,
        "localtime": lambda s=None: DT.now().timetuple() if s is None else real_clocks["localtime"](s),
        "gmtime": lambda s=None: DT.now().timetuple() if s is None else real_clocks["gmtime"](s),
        "strftime": lambda f, t=None: real_clocks["strftime"](f, DT.now().timetuple() if t is None else t),
    }
    sbp = {n: getattr(subprocess, n) for n in ("call", "check_call", "check_output", "run", "Popen")}

    for _ in r.ops(2, 6):
        r.tick()
        # the user, in between
        u = r.weighted([(5, None), (1, "edit"), (2, "restore"), (1, "junk")])
        if u == "edit":
            wr(R, rd(R) + "Also %s.\n" % r.pick(VERS))
        elif u == "restore":
            for p in (V, R):
                wr(p, Git.head[p])
            Git.index = dict(Git.head)
        elif u == "junk":
            wr(V, rd(V).replace("__updated__", "__updted__"))
        v0, r0, o0 = rd(V), rd(R), rd(O)
        import re

        mv, md = re.search('__version__ = "([^"]+)"', v0), re.search('__updated__ = "([^"]+)"', v0)
        usable = bool(mv and md)
        old_ver, old_date = (mv.group(1), md.group(1)) if usable else (None, None)
        new = r.pick(VERS + [None])
        dry, force, commit = r.chance(20), r.chance(30), r.chance(50)
        tag = r.pick(["rel", "a message", "Iñ"]) if r.chance(40) else None
        arm.clear()
        if r.chance(55):
            n, kinds = r.pick(
                [
                    ("git-add", ["fails", "missing", "interrupt"]),
                    ("git-commit", ["fails", "interrupt", "missing"]),
                    ("git-tag", ["fails", "interrupt", "missing"]),
                    ("tests", ["fails", "errors", "interrupt"]),
                    ("tests-import", ["fails"]),
                    ("write", ["denied", "enospc", "eio", "interrupt"]),
                    ("read", ["denied", "eio", "interrupt"]),
                    ("stdout", ["broken", "interrupt"]),
                ]
            )
            arm[n] = [r.draw(2 if n != "stdout" else 14), r.pick(kinds)]
        argv = []
        for flag, on in (("-n --dry-run", dry), ("-f --force", force), ("-c --commit", commit)):
            if on:
                argv.append(r.pick(flag.split()))
        if tag:
            argv += r.pick([["-t", tag], ["--tag=" + tag]])
        if new:
            argv.insert(r.draw(2) and len(argv), new)
        r.log("invoke", argv, "from", old_ver, old_date, "user", u)
        ev[:] = []
        seen[:] = []
        nc, nt, head0 = len(Git.commits), len(Git.tags), dict(Git.head)
        out = Out()
        exc = None
        old_err = sys.stderr
        sys.stderr = io.StringIO()
        datetime.datetime = DT
        for n, f in clocks.items():
            setattr(time, n, f)
        builtins.open = io.open = sim_open
        subprocess.call, subprocess.check_call, subprocess.run = git, checked, run_
        subprocess.check_output, subprocess.Popen = lambda *a, **k: (checked(*a, **k), b"")[1], popen
        try:
            with contextlib.redirect_stdout(out):
                try:
                    main(*argv)
                except SystemExit as ex:
                    exc = ex if ex.code not in (None, 0) else None
                except (Exception, SimInterrupt) as ex:
                    exc = ex
        finally:
            sys.stderr = old_err
            datetime.datetime = real_dt
            for n, f in real_clocks.items():
                setattr(time, n, f)
            builtins.open = io.open = ropen
            for n, f in sbp.items():
                setattr(subprocess, n, f)
        arm.clear()
        v1, r1 = rd(V), rd(R)
        steps = [e[0] if e[0] != "git" else "git-" + e[1] for e in ev]
        fault = next((i for i, e in enumerate(ev) if e[0] == "FAULT"), None)
        tag_ok = "v%s" % new not in [t[0] for t in Git.tags[:nt]]
        r.log("result", type(exc).__name__ if exc else "ok", steps, seen)
        kind = "show" if not new else "dry" if dry else "bump"
        r.state((kind, force, commit, bool(tag), type(exc).__name__, tuple(sorted(set(steps)))))
        if fault is not None:
            f = ev[fault]
            r.probe({
                "git-add": "git_add_fails", "git-commit": "git_commit_fails", "git-tag": "git_tag_fails", "tests-import": "tests_import_error",
                "write": "write_fails", "read": "read_fails", "stdout": "stdout_fails", "tests": "tests_fail" if f[2] == "fails" else "tests_error",
            }[f[1]])
            if f[2] == "missing":
                r.probe("git_missing")
            if f[2] == "interrupt":
                r.probe("interrupted")

        # Always: nobody else's file is touched, nor any unknown command executed.
        r.check(rd(O) == o0, "foreign-file", "a file that is not the project's version-files was changed")
        r.check("moved-tag" not in steps, "moved-tag", "an existing tag was moved to another commit")
        r.check("other-cmd" not in steps, "unknown-command", lambda: "executed %r" % [e for e in ev if e[0] == "other-cmd"])
        # Nothing follows a failure.
        if fault is not None:
            r.check(exc is not None, "failure-swallowed", lambda: "%r happened, yet it finished normally" % (ev[fault],))
            late = [s for s in steps[fault + 1:] if s in ("write", "git-add", "git-commit", "git-tag", "tests-import", "tests-run")]
            r.check(not late, "went-on-after-failure", lambda: "after %r it went on with %s" % (ev[fault], late))
            r.check(
                not (isinstance(exc, SystemExit) and ev[fault][2] == "interrupt"), "interrupt-lost", "an interrupt became a plain error"
            )
        new_commits, new_tags = Git.commits[nc:], Git.tags[nt:]
        if not usable:
            r.probe("no_version")
            r.check(exc is not None, "no-version", "the version-file has no version and date, yet it finished normally")
        must_refuse = usable and new == old_ver and not force
        if kind != "bump" or not usable or must_refuse:
            r.check((v1, r1) == (v0, r0) and "write" not in steps, "wrote", lambda: "%s %r wrote files" % (kind, argv))
            r.check(not any(s.startswith("git") for s in steps), "executed", lambda: "%s %r executed %s" % (kind, argv, steps))
            if must_refuse and fault is None and kind != "show":
                r.check(isinstance(exc, SystemExit), "same-version", lambda: "bumping to the same version gave %r" % exc)
                r.check(new in str(exc.code), "same-version-msg", "the refusal does not tell the version")
                r.probe("same_refused")
            if usable and kind == "show" and fault is None:
                r.check(exc is None, "show-fails", lambda: "showing the version failed with %r" % exc)
                r.check(out.getvalue().split("\n") == [old_ver, old_date, ""], "show", lambda: "showed %r" % out.getvalue())
                r.probe("shown")
            if usable and kind == "dry" and not must_refuse and fault is None:
                r.check(exc is None, "dry-fails", lambda: "a dry-run failed with %r" % exc)
                r.probe("dry")
        else:
            if "write" in steps or exc is None:
                dates = [d for d in seen] or ["<none asked>"]
                wants = []
                for d in dates:
                    wants.append(tuple(t.replace(old_ver, new).replace(old_date, d) for t in (v0, r0)))
                if exc is None or not any(e[0] == "FAULT" and e[1] in ("write", "read", "stdout") for e in ev):
                    r.check((v1, r1) in wants, "wrong-text", lambda: "files became %r, must be one of %r" % ((v1, r1), wants))
                seen_by_tests = [e[1:] for e in ev if e[0].startswith("tests")]
                r.check(
                    all(s in wants for s in seen_by_tests), "tests-before-files",
                    lambda: "doc-tests saw %r, not the new contents" % (seen_by_tests,),
                )
            gits = [s for s in steps if s.startswith("git")]
            if gits:
                r.check(commit or tag, "uninvited-commit", lambda: "%r executed %s" % (argv, gits))
                i = steps.index(gits[0])
                r.check(steps[:i].count("tests-run") == 2, "commit-untested", lambda: "committing before testing: %s" % steps)
                r.check("tests-run" not in steps[i:] and "write" not in steps[i:], "late-steps", lambda: "after committing: %s" % steps[i:])
            if exc is None:
                if steps.count("write") == 0 or steps.count("tests-run") != 2:
                    r.fail("incomplete", "finished normally without all steps: %s" % steps)
                r.probe("bumped")
                if bumps:
                    r.nontrivial = True
                    r.probe("second_bump")
                if failed_before:
                    r.probe("recovered")
                if new == old_ver:
                    r.probe("same_forced")
                bumps += 1
                failed_before = False
                r.check(len(new_commits) == (1 if commit or tag else 0), "commits", lambda: "%r made %i commits" % (argv, len(new_commits)))
                r.check(len(new_tags) == (1 if tag else 0), "tags", lambda: "%r made %i tags" % (argv, len(new_tags)))
            elif fault is None:
                # the only fault-less reasons: nothing changed to commit, or the tag exists
                r.check(
                    isinstance(exc, SystemExit) and ((commit or tag) and (v1, r1) == (head0[V], head0[R]) or tag and not tag_ok), "unexpected-failure",
                    lambda: "%r failed with %r though nothing was wrong; %s" % (argv, exc, steps),
                )
            if new_commits:
                r.probe("committed")
                msg, tree = new_commits[0]
                r.check(
                    (tree[V], tree[R]) == (v1, r1) and tree[O] == head0[O], "commit-contents",
                    lambda: "the commit does not hold exactly the bumped files",
                )
                told = msg.partition(old_ver)[2].rpartition(">")[2].strip()
                r.check(
                    old_ver in msg and told and ("." + new).endswith("." + told) and old_ver.startswith(new[: len(new) - len(told)]), "commit-message",
                    lambda: "commit-message %r does not tell both versions, %r and %r" % (msg, old_ver, new),
                )
            if new_tags:
                r.probe("tagged")
                name, msg, signed, tree = new_tags[0]
                r.check(bool(new_commits) and (tree[V], tree[R]) == (v1, r1), "tag-uncommitted", "tagged what was not committed")
                r.check(
                    (name, msg, signed) == ("v" + new, tag, True), "wrong-tag", lambda: "tag %r, must be signed v%s with %r" % ((name, msg, signed), new, tag)
                )
        if exc is not None:
            failed_before = True
            if fault is not None and fault is not None and ev[fault][1] in ("write", "read"):
                # (a torn file is recovered from git by the user)
                for p in (V, R):
                    wr(p, Git.head[p])
                Git.index = dict(Git.head)
