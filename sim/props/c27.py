"""C27: paths and urls resolve against where the process stands at the moment they are asked, whatever moves meanwhile."""
import os
import pwd
import re
import subprocess
import sys
from urllib.parse import unquote

# loaded before sys.platform is simulated: some of them look at it as they load
import ctypes  # noqa: F401
import errno  # noqa: F401
import glob  # noqa: F401
import ntpath  # noqa: F401
import pathlib  # noqa: F401
import shlex  # noqa: F401
import shutil  # noqa: F401
import tempfile  # noqa: F401
import urllib.request  # noqa: F401
import webbrowser  # noqa: F401

ID = "C27"
QUICK = 40000
THOROUGH = 2000000
RULE = (
    "one run = a process whose current folder, home and environment variables are moved about by others - between calls "
    "and right after the code looked at the current folder - and whose current folder may vanish, resolving drawn paths "
    "(relative, absolute, dots, trailing slashes, ~, variables, UNC shares, urls) with all drawn flags, round-tripping "
    "them to urls, and launching the OS's opener (missing, failing) on them; answers are checked against a model that "
    "resolves names one by one. Non-trivial: the same path asked from 2 places, or a look-up failed or raced."
)
STATES = "hash of (function, flags, kinds of path-segments, kind of cwd, raced, failed)"
REAL = ["utils.convpath, abspath, normpath, path2url, path2urlpath, urlpath2path, open_file_with_os"]
STUB = ["current folder (os.getcwd)", "environment and home", "OS openers (os.startfile, subprocess, sys.platform)"]
PROBES = [
    "moved", "raced", "cwd_gone", "cwd_root", "cwd_quoted", "user", "user_other", "user_unknown", "no_home", "vars", "unknown_var", "unc_share",
    "dotdot_over_root", "trailing", "remote", "file_url", "idempotent", "roundtrip", "opener", "opener_failed", "recovered",
]

CWDS = ["/srv/data", "/", "/srv/a b", "/srv/100%20x", "/srv/c#1?y", "/srv/data/deep/er", "/σ/x"]
SEGS = ["a", "b.xlsx", "..", ".", "a b", "δ", "$V1", "${V2}", "$NOPE", "x$V1.y", "${NOPE}z", "~", "q-$V2-$V1", "$", "x$"]
VALS = ["val", "a b", "", "d/e", "..", "$V1", "/abs", "x/"]
HOMES = ["/home/joe", "/home/joe/", "/", "/h o/m", None]


def resolve(base, path):
    """Absolute path of `path` seen from `base`, name by name, with any trailing slash of it."""
    stack = [] if path.startswith("/") else [s for s in base.split("/") if s]
    for s in path.split("/"):
        if s == "..":
            if stack:
                stack.pop()
        elif s not in ("", "."):
            stack.append(s)
    return "/" + "/".join(stack)


def is_dir(p, seps="/\\\\"):
    return len(p) > 1 and p[-1] in "/\\" and p[-2] not in "/\\"


def slashed(p, orig):
    return p + "/" if is_dir(orig) and p[-1] != "/" else p


def relnorm(path):
    up, stack = 0, []
    for s in path.split("/"):
        if s == "..":
            if stack:
                stack.pop()
            else:
                up += 1
        elif s not in ("", "."):
            stack.append(s)
    return "/".join([".."] * up + stack) or "."


def run(r):
    from pandalone import utils

    st = {"cwd": "/srv/data", "gone": None, "race": None, "seen": []}
    real = {"getcwd": os.getcwd, "call": subprocess.call, "platform": sys.platform}
    env0 = dict(os.environ)

    def getcwd():
        if st["gone"]:
            r.fault("cwd-gone")
            st["failed"] = True
            raise st["gone"]
        cwd = st["cwd"]
        st["seen"].append(cwd)
        if st["race"]:
            st["cwd"], st["race"] = st["race"], None
            r.fault("moved-meanwhile")
            r.probe("raced")
        return cwd

    def restore():
        os.getcwd = real["getcwd"]
        subprocess.call = real["call"]
        sys.platform = real["platform"]
        if hasattr(os, "startfile"):
            del os.startfile
        os.environ.clear()
        os.environ.update(env0)

    r.cleanups.append(restore)
    os.getcwd = getcwd
    os.environ.pop("NOPE", None)
    os.environ.update(V1="val", V2="a b", HOME="/home/joe")
    env = {"V1": "val", "V2": "a b", "HOME": "/home/joe"}

    def setenv(k, v):
        if v is None:
            env.pop(k, None)
            os.environ.pop(k, None)
        else:
            env[k] = v
            os.environ[k] = v

    def expvars(p):
        def one(m):
            n = m[1] or m[2]
            if n in env:
                r.probe("vars")
                return env[n]
            r.probe("unknown_var")
            return m[0]

        return re.sub(r"\$(?:(\w+)|\{([^}]*)\})", one, p, flags=re.A)

    def expuser(p):
        if not p.startswith("~"):
            return p
        name, sep, rest = p[1:].partition("/")
        if not name:
            home = env.get("HOME")
            if home is None:
                r.probe("no_home")
                home = pwd.getpwuid(os.getuid()).pw_dir
            else:
                r.probe("user")
        elif name == "root":
            r.probe("user_other")
            home = pwd.getpwnam("root").pw_dir
        else:
            r.probe("user_unknown")
            return p
        return (home.rstrip("/") + sep + rest) or "/"

    def gen_path(urlish=False):
        segs = [r.pick(SEGS) for _ in range(1 + r.draw(4))]
        p = "/".join(segs)
        k = r.weighted([(5, ""), (3, "/"), (2, "~/"), (1, "~root/"), (1, "~nobody2/"), (1, "../../../../../"), (1, "./")])
        p = k + p
        if k.startswith("../"):
            r.probe("dotdot_over_root")
        if r.chance(25):
            p += "/"
            r.probe("trailing")
        if r.chance(15):
            p += r.pick(["/c$\\x", "/$V1$\\sh", "$\\"])
            r.probe("unc_share")
        if urlish and r.chance(20):
            p = p.replace("/", "\\")
        return p.replace("//", "/")

    asked = {}
    failed = False
    for _ in r.ops(3, 14):
        r.tick()
        op = r.weighted([(4, "conv"), (5, "url"), (2, "abs"), (2, "round"), (1, "open"), (3, "move"), (2, "env"), (1, "home")])
        if op == "move":
            st["cwd"] = r.pick(CWDS)
            r.log("chdir", st["cwd"])
            r.probe("moved")
            continue
        if op == "env":
            k, v = r.pick(["V1", "V2"]), r.pick(VALS + [None])
            setenv(k, v)
            r.log("setenv", k, v)
            continue
        if op == "home":
            setenv("HOME", r.pick(HOMES))
            r.log("home", env.get("HOME"))
            continue
        st["gone"] = r.pick([FileNotFoundError(2, "gone"), PermissionError(13, "no")]) if r.chance(8) else None
        st["race"] = r.pick(CWDS) if r.chance(15) else None
        st["seen"] = []
        st["failed"] = False
        before = st["cwd"]
        if before == "/":
            r.probe("cwd_root")
        if "%" in before or "#" in before:
            r.probe("cwd_quoted")
        if op == "open":
            opener(r, utils, gen_path())
            continue
        flags = {}
        if op == "conv":
            path = gen_path()
            flags = {k: r.chance(60) for k in ("abs_path", "exp_user", "exp_vars") if r.chance(70)}
            f = lambda p: utils.convpath(p, **flags)
        elif op == "abs":
            path = gen_path()
            f = r.pick([utils.abspath, utils.normpath])
            flags = {"abs_path": f is utils.abspath, "exp_user": False, "exp_vars": False}
        elif op == "url":
            path = gen_path(True)
            kind = r.weighted([(6, "path"), (2, "remote"), (1, "file"), (1, "win"), (1, "none")])
            if kind == "remote":
                path = r.pick(["http://host/", "https://h:80/x/", "ftp://u@h/"]) + path.lstrip("/\\") + r.pick(["", "?q=1/../2", "#f", "?Q=A%20b&A", "#F%41"])
                r.probe("remote")
            elif kind == "file":
                path = "file:///" + path.lstrip("/\\")
                r.probe("file_url")
            elif kind == "win":
                path = r.pick(["C:/", "d:\\", "D:"]) + path.lstrip("/\\")
            elif kind == "none":
                path = r.pick(["", None])
            flags = {k: r.chance(50) for k in ("expandvars", "expanduser") if r.chance(70)}
            f = lambda p: utils.path2url(p, **flags)
        else:
            path = expvars(gen_path()).replace("//", "/") + r.pick(["", "%20", "100%", "#q?", "/"])
            path = path.replace("//", "/").rstrip("\\")  # (that one would be a Windows folder)
            f = utils.path2urlpath
        err = got = None
        try:
            got = f(path)
        except OSError as ex:
            err = ex
        r.log(op, path, sorted(flags.items()), got, err and type(err).__name__)
        r.state((op, sorted(flags.items()), sorted({s if len(s) < 3 else s[:2] for s in re.split(r"[/\\]", path or "")}), before, st["cwd"], st["failed"]))
        if err:
            r.check(err is st["gone"], "spurious-error", lambda: "%s(%r) raised %r" % (op, path, err))
            r.probe("cwd_gone")
            r.nontrivial = failed = True
            continue
        if failed:
            r.probe("recovered")
            failed = False
        st["gone"] = st["race"] = None
        if asked.setdefault(path, before) != before or st["cwd"] != before:
            r.nontrivial = True

        cwds = st["seen"] or [before]
        if op in ("conv", "abs"):
            p = path
            if flags.get("exp_user", True):
                p = expuser(p)
            if flags.get("exp_vars", True):
                p = expvars(p)
            if flags.get("abs_path", True):
                want = [slashed(resolve(c, p), p) for c in cwds]
            else:
                want = [slashed(resolve("/", p) if p.startswith("/") else relnorm(p), p)]
            got1 = got[1:] if got.startswith("//") and not got.startswith("///") and p.startswith("//") else got
            r.check(got1 in want, "wrong-path", lambda: "%s(%r, %s) gave %r, not any of %r" % (op, path, flags, got, want))
        elif op == "round":
            back = utils.urlpath2path(got)
            r.probe("roundtrip")
            r.check(back == path, "lost-in-url", lambda: "%r became %r, then %r" % (path, got, back))
            r.check(not set(got) & set(" #?\\"), "raw-chars", lambda: "%r became %r" % (path, got))
        else:
            if not path:
                r.check(got == path, "wrong-url", lambda: "nothing %r became %r" % (path, got))
                continue
            p = path
            if flags.get("expandvars"):
                p = expvars(p)
            p = p.replace("\\", "/")
            if flags.get("expanduser"):
                p = expuser(p)
            if not p:
                continue
            if "//" in p.partition("://")[2] or ("//" in p and "://" not in p):
                continue  # (might name a remote host)
            m = re.match(r"([a-zA-Z]):/?(.*)$", p)
            u = re.match(r"(\w\w+://[^/]*)([^?#]*)(.*)$", p)
            if m:
                want = ["file:///%s:" % m[1] + resolve("/", m[2])]
                # (dots may climb over the drive)
                alt = resolve("/", "%s:/%s" % (m[1], m[2]))
                want.append("file://" + alt)
                p, where = m[0], ""
            elif u:
                want = [u[1] + resolve("/", u[2]) + u[3]]
                want += [u[1] + resolve("/", u[2]).rstrip("/") + "/" + u[3]] if u[2][-1:] in "/." else []
            else:
                want = ["file://" + resolve(c, p) for c in cwds]
            r.check(
                any(same(got, w, m or u, p) for w in want), "wrong-url",
                lambda: "path2url(%r, %s) from %r gave %r, not any of %r" % (path, flags, cwds, got, want),
            )
            again = utils.path2url(got)
            r.probe("idempotent")
            r.check(again == got, "not-idempotent", lambda: "url %r of %r became %r" % (got, path, again))


def same(got, want, absolute, p):
    if absolute:
        a, b = got, want
    else:
        # relative: the current folder is quoted, names may
        if not got.startswith("file:///"):
            return False
        a, b = "file://" + unquote(got[7:]), want
    if re.search(r"(^|/)\.\.?/?$", re.split("[?#]", p)[0]):
        a, b = a.rstrip("/"), b.rstrip("/")
    elif not absolute or not re.search("[?#]", b):
        b = slashed(b, p)
    return a == b


def opener(r, utils, path):
    """Asks the OS to open a file."""
    plat = r.pick(["linux", "darwin", "linux2", "win32"])
    calls = []
    exc = r.pick([FileNotFoundError(2, "no xdg-open"), OSError(5, "io"), None, None])

    def call(cmd, *args, **kw):
        calls.append((plat, tuple(cmd) if not isinstance(cmd, str) else cmd))
        if exc:
            r.fault("opener-failed")
            raise exc
        return r.pick([0, 3])

    def startfile(p, *args):
        calls.append((plat, p))
        if exc:
            r.fault("opener-failed")
            raise exc

    subprocess.call = call
    sys.platform = plat
    if plat == "win32":
        os.startfile = startfile
    elif hasattr(os, "startfile"):
        del os.startfile
    err = None
    try:
        utils.open_file_with_os(path)
    except Exception as ex:
        err = ex
    r.log("open", plat, path, calls, err and type(err).__name__)
    r.probe("opener")
    want = {"win32": path, "darwin": ("open", path)}.get(plat, ("xdg-open", path))
    r.check(calls == [(plat, want)], "wrong-opener", lambda: "opening %r on %s launched %r" % (path, plat, calls))
    if exc:
        r.probe("opener_failed")
    r.check(err is None or err is exc, "spurious-error", lambda: "opening %r raised %r" % (path, err))
    r.check(err is exc, "missed-error", lambda: "the failure of the opener on %r went unreported" % path)
