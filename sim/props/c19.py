"""C19: ensuring a directory exists, against concurrent processes and failing system-calls."""
import errno
import os

from ..fsworld import FsWorld

ID = "C19"
QUICK = 6000
THOROUGH = 200000
RULE = (
    "one run = a scratch folder where 2-8 (nested, existing, occupied) directories are ensured, while at each system-call "
    "of the code other simulated processes may create or remove directories and files along the path, or the call "
    "fails; outcomes are checked against the history of the folder during each call. Non-trivial: another process "
    "acted within a call that had to create something."
)
STATES = "hash of (initial kind, depth missing, foreign acts, failed syscall, outcome)"
REAL = ["utils.ensure_dir_exists", "os.makedirs", "files of a scratch folder"]
STUB = ["other processes", "failing system-calls"]
PROBES = ["created", "existed", "not_a_dir", "lost_race_dir", "lost_race_file", "syscall_failed", "removed_under", "deep", "mode", "raised_race", "relative", "slash"]
ERRNOS = [errno.EACCES, errno.ENOSPC, errno.EROFS, errno.EIO, errno.ENAMETOOLONG, errno.EMLINK]


def run(r):
    from pandalone import utils

    w = FsWorld(r)
    old_mask = os.umask(0)
    cwd = os.getcwd()
    try:
        os.chdir(w.root)
        names = ["a", "a/b", "a/b/c", "d", "d/e", "f"]
        for _ in range(r.draw(4)):
            n = r.pick(names)
            if r.chance(70):
                w.mkdir(n)
            else:
                w.touch(n)
        for _ in r.ops(2, 8):
            r.tick()
            one(r, w, utils, names)
    finally:
        os.chdir(cwd)
        os.umask(old_mask)
        w.close()


def one(r, w, utils, names):
    rel = r.pick(names)
    chain = [rel[: i + 1] for i in range(len(rel)) if i + 1 == len(rel) or rel[i + 1] == "/"]
    path = rel if r.chance(20) else os.path.join(w.root, rel)
    if path == rel:
        r.probe("relative")
    if r.chance(15):
        path += "/"
        r.probe("slash")
    mode = r.pick([None, None, 0o700, 0o755, 0o750])
    acts = []
    seq = [r.weighted([(10, None), (2, "mkdir"), (1, "touch"), (1, "remove")]) for _ in range(8)]
    who = [r.pick(chain) for _ in range(8)]
    if r.chance(40):
        seq = []

    def actor(name):
        if seq:
            k, p = seq.pop(0), who.pop(0)
            if k == "mkdir" and r.draw(2):
                for q in chain:
                    if w.mkdir(q):
                        acts.append(("mkdir", q))
            elif k and getattr(w, k)(p):
                acts.append((k, p))

    w.actor = actor
    w.plan = {}
    if r.chance(15):
        w.plan[r.pick(["mkdir", "mkdir", "stat", "chmod"])] = [r.draw(3), r.pick(ERRNOS)]
    w.fired = []
    before = w.listing()
    w.history = []
    err = None
    with w:
        try:
            utils.ensure_dir_exists(path, *(() if mode is None else (mode,)))
        except OSError as ex:
            err = ex
    after = w.listing()
    w.actor = None
    for a in acts:
        r.fault("other-" + a[0])
    was_dir = any(h.get(rel) == "d" for h in w.history)
    missing = sum(1 for q in chain if q not in before)
    r.log("ensure", rel, mode, acts, w.fired, err and (type(err).__name__, errno.errorcode.get(err.errno)))
    r.state((before.get(rel), missing, tuple(sorted(acts)), tuple(w.fired), err is None))
    if err is None:
        r.check(was_dir, "false-success", lambda: "ensured %r, but it never was a directory: %r acts=%r" % (rel, w.history, acts))
        r.probe("existed" if before.get(rel) == "d" else "created")
        if missing > 1:
            r.probe("deep")
    else:
        causes = (
            w.fired
            or any(a[0] in ("touch", "remove") for a in acts)
            or any(before.get(q) == "f" for q in chain)
        )
        r.check(causes, "spurious-error", lambda: "ensuring %r raised %r, yet nobody prevented it: before=%r acts=%r" % (rel, err, before, acts))
        if w.fired:
            r.probe("syscall_failed")
        elif before.get(rel) == "f":
            r.probe("not_a_dir")
    blocked = [q for q in chain if before.get(q) == "f"]
    if blocked and not acts:
        r.check(err is not None, "false-success", lambda: "%r is a file, yet ensured %r" % (blocked, rel))
    if any(a[0] == "touch" for a in acts):
        r.probe("lost_race_file" if err is None else "raised_race")
    if any(a[0] == "mkdir" for a in acts) and err is None:
        r.probe("lost_race_dir")
    if any(a[0] == "remove" for a in acts):
        r.probe("removed_under")
    # touches nothing but the missing directories of the path
    gone = {a[1] for a in acts if a[0] == "remove"}
    for k, v in before.items():
        if not any(k == g or k.startswith(g + "/") for g in gone):
            r.check(after.get(k) == v, "collateral", lambda: "ensuring %r changed %r: %r -> %r" % (rel, k, v, after.get(k)))
    made = {a[1] for a in acts}
    for k in after:
        r.check(
            k in before or k in made or k in chain, "collateral",
            lambda: "ensuring %r also made %r" % (rel, k),
        )
    if err is None and not acts and before.get(rel) is None and mode is not None:
        got = os.stat(os.path.join(w.root, rel)).st_mode & 0o777
        r.probe("mode")
        r.check(got == mode, "wrong-mode", lambda: "made %r with mode %o, not %o" % (rel, got, mode))
    if acts and missing:
        r.nontrivial = True
