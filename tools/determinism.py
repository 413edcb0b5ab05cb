"""Are histories a function of (property, seed, run-index) only? Compares digests of the same runs in two processes, one of them with
another hash-seed: `python3 tools/determinism.py [N] [CXX ...]`. A difference is either nondeterminism of a harness or a
dependence of the code under test on the hash-seed (which C14 treats as a violation for model-building)."""
import json
import os
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def digests(c, n, hs):
    env = dict(os.environ, VERIF_HASHSEED=str(hs))
    return subprocess.run([sys.executable, "check.py", c, "--digests", "--runs", str(n)], cwd=VERIF, env=env, stdout=subprocess.PIPE,
                          text=True).stdout.splitlines()


n = int(sys.argv[1]) if len(sys.argv) > 1 else 300
ids = sys.argv[2:] or [c["property"] for c in json.load(open(VERIF + "/MANIFEST.json"))["checks"]]
bad = 0
for c in ids:
    a, b, h = (digests(c, n, hs) for hs in (0, 0, 7))
    d1, d2 = ([i for i in range(n) if i >= min(len(a), len(x)) or a[i] != x[i]] for x in (b, h))
    print("%s: %i runs, differing between processes: %s, between hash-seeds: %s" % (c, len(a), d1[:5] or 0, d2[:5] or 0), flush=True)
    bad += bool(d1) + bool(d2)
sys.exit(bool(bad))
