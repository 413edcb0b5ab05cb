"""C20: unique filenames never clash with existing files, whatever appears meanwhile."""
import itertools as itt
import os

from ..fsworld import FsWorld

ID = "C20"
QUICK = 5000
THOROUGH = 200000
RULE = (
    "one run = a scratch folder filled by 2-4 clients who repeatedly ask for unique filenames (default or own "
    "generators) and create them, while other simulated processes create and remove files at each system-call of the code; "
    "the answers are checked against the history of the folder during each call. Non-trivial: another process acted "
    "within a call that had to try more than one name."
)
STATES = "hash of (number of names tried, foreign acts, generator, file or folder)"
REAL = ["utils.make_unique_filename, generate_filenames", "files of a scratch folder"]
STUB = ["other processes"]
PROBES = ["first", "numbered", "own_gen", "lost_race", "freed_meanwhile", "no_ext", "dir_occupies", "dangling_dots", "relative", "exhausted", "crowded"]


def default_names(p):
    d, b = os.path.split(p)
    i = b.rfind(".")
    stem, ext = (b, "") if i <= 0 or not b[:i].strip(".") else (b[:i], b[i:])
    yield p
    for i in itt.count(1):
        yield os.path.join(d, "%s%i%s" % (stem, i, ext))


def run(r):
    from pandalone import utils

    w = FsWorld(r)
    cwd = os.getcwd()
    try:
        os.chdir(w.root)
        w.mkdir("sub.d")
        bases = ["x.txt", "x", "x.tar.gz", ".rc", "sub.d/y", "sub.d/y.csv", "a b%.t", "v2.csv", "r99", "a1.b2"]
        if r.chance(15):
            crowd = r.pick(bases)
            for n in itt.islice(default_names(crowd), 8 + r.draw(14)):
                w.touch(n)
            r.probe("crowded")
        for _ in r.ops(3, 12):
            r.tick()
            base = r.pick(bases)
            path = base if r.chance(30) else os.path.join(w.root, base)
            if path == base:
                r.probe("relative")
            own = r.chance(25)
            tried = []

            def own_gen(p, n=r.pick([2, 3, 50])):
                for i in range(n):
                    c = "%s~%i" % (p, i)
                    tried.append((c, len(w.history)))
                    yield c

            gen = own_gen(path) if own else default_names(path)
            names = list(itt.islice(gen, 60))
            del tried[:]
            rels = [os.path.relpath(os.path.join(w.root, n), w.root) for n in names]
            seq = [r.weighted([(10, None), (3, "touch"), (2, "remove"), (1, "mkdir")]) for _ in range(10)] if r.chance(50) else []
            which = [r.draw(4) for _ in seq]
            acts = []

            def actor(name):
                if seq:
                    k, i = seq.pop(0), which.pop(0)
                    if k and i < len(rels) and getattr(w, k)(rels[i]):
                        acts.append((k, i))

            w.actor = actor
            w.history = []
            got = err = None
            with w:
                try:
                    got = utils.make_unique_filename(path, own_gen) if own else utils.make_unique_filename(path)
                except Exception as ex:
                    err = ex
            w.actor = None
            for a in acts:
                r.fault("other-" + a[0])
            hist = w.history
            r.log("unique", base, own, acts, got and os.path.relpath(os.path.join(w.root, got), w.root), err and type(err).__name__)
            if err is not None or got is None:
                # only when names ran out
                r.check(
                    own and all(any(n in h for h in hist) for n in rels), "spurious-error",
                    lambda: "unique name for %r failed with %r, though %r could be free" % (base, err, rels),
                )
                r.probe("exhausted")
                continue
            r.check(got in names, "wrong-name", lambda: "%r: %r is not among %r..." % (base, got, names[:5]))
            i = names.index(got)
            r.state((min(i, 5), tuple(sorted(acts)), own))
            r.check(
                any(rels[i] not in h for h in hist), "clash",
                lambda: "%r given as unique, but existed all along: acts=%r" % (got, acts),
            )
            since = dict(tried).get(got, 0) if own else 0
            r.check(
                any(rels[i] not in h for h in hist[max(0, since - 1):]), "clash",
                lambda: "%r given as unique, but existed ever since it was proposed: acts=%r" % (got, acts),
            )
            for j in range(i):
                r.check(
                    any(rels[j] in h for h in hist), "skipped-free",
                    lambda: "%r given, though %r was free all along" % (got, names[j]),
                )
            if not acts:
                r.check(not os.path.exists(got), "clash", lambda: "%r given as unique, but exists" % got)
            r.probe("own_gen" if own else "first" if i == 0 else "numbered")
            if any(k == "touch" and j <= i for k, j in acts):
                r.probe("lost_race")
            if any(k == "remove" for k, _ in acts):
                r.probe("freed_meanwhile")
            if "." not in os.path.basename(base):
                r.probe("no_ext")
            if base == ".rc":
                r.probe("dangling_dots")
            if acts and i:
                r.nontrivial = True
            if r.chance(80):
                if r.chance(15) and w.mkdir(rels[i]):
                    r.probe("dir_occupies")
                else:
                    w.touch(rels[i])
            if r.chance(10):
                w.remove(r.pick(rels[:3]))
    finally:
        os.chdir(cwd)
        w.close()
