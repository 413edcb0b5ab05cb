"""Make and confirm planted bugs: `mk(id, prop, edits, demo, needs, breaks)` from spec-files run as
`python3 tools/mkseed.py SPEC.py ...`; `python3 tools/mkseed.py --catch [ID ...]` runs the checks against them."""
import json
import os
import re
import shutil
import subprocess
import sys
import concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = ". /opt/vp/env.sh; "
BASE = "923d68b"
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def sh(cmd, cwd, timeout=600):
    return subprocess.run(["bash", "-c", ENV + cmd], cwd=cwd, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)


def work(tag):
    w = "/tmp/seedwork-" + tag
    shutil.rmtree(w, ignore_errors=True)
    subprocess.check_call(["cp", "-a", "/repo", w])
    return w


SPECS = []


def mk(id, prop, edits, demo, needs, breaks, files=()):
    SPECS.append((id, prop, edits, demo, needs, breaks, files))


def confirm(spec):
    id, prop, edits, demo, needs, breaks, files = spec
    w = work(id)
    d = os.path.join(VERIF, "seeded", id)
    try:
        for f, a, b in edits:
            p = os.path.join(w, f)
            s = open(p, encoding="utf8", newline="").read()
            if s.count(a) != 1:
                return "%s: edit of %s matches %i times: %r" % (id, f, s.count(a), a)
            open(p, "w", encoding="utf8", newline="").write(s.replace(a, b))
        diff = subprocess.check_output(["git", "diff"], cwd=w)
        # removed lines must all be original ones
        cur, ln, nrem = None, 0, 0
        for l in diff.decode("utf8", "replace").splitlines():
            if l.startswith("--- a/"):
                cur = l[6:]
            m = re.match(r"@@ -(\d+)", l)
            if m:
                ln = int(m[1])
            elif l.startswith("-") and not l.startswith("---"):
                bl = subprocess.check_output(["git", "blame", "-s", "-L%i,%i" % (ln, ln), "HEAD", "--", cur], cwd=w).decode()
                if BASE not in bl and not bl.startswith("^"):
                    return "%s: changes a line of a fix: %s" % (id, l)
                nrem += 1
                ln += 1
            elif l.startswith(" "):
                ln += 1
        if not nrem:
            return "%s: changes no original line" % id
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "wb").write(diff)
        if demo:
            open(d + "/demo.py", "w").write(demo)
            open(d + "/demo.sh", "w").write(
                '#!/bin/bash\n. /opt/vp/env.sh\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'
            )
            os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
        r = sh("/opt/venv/bin/python /opt/vp/check_sources.py", w)
        r = sh("export PYTHONPATH=%s; bash %s/demo.sh" % (w, d), w, 300)
        if r.returncode == 0:
            return "%s: demo passes with the patch: %s" % (id, r.stdout.decode()[-200:])
        out = r.stdout.decode()[-300:]
        r = sh("export PYTHONPATH=/repo; bash %s/demo.sh" % d, "/repo", 300)
        if r.returncode:
            return "%s: demo fails on the clean tree: %s" % (id, r.stdout.decode()[-200:])
        r = sh(
            "timeout -k 5 150 /opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 --continue-on-collection-errors "
            "-o junit_family=xunit2 --junitxml=/tmp/seedj-%s.xml; "
            "/usr/bin/python3 /opt/vp/results.py /tmp/seedj-%s.json junit:/tmp/seedj-%s.xml" % (id, id, id),
            w,
        )
        if not os.path.exists("/tmp/seedj-%s.json" % id):
            return "%s: tests hang" % id
        res = json.load(open("/tmp/seedj-%s.json" % id))
        bad = STABLE - set(res["passed"])
        for x in ("xml", "json"):
            os.unlink("/tmp/seedj-%s.%s" % (id, x))
        if bad:
            return "%s: breaks %i stable tests: %s" % (id, len(bad), sorted(bad)[:3])
        return "%s: OK  (%s)" % (id, out.strip().splitlines()[-1:] )
    finally:
        shutil.rmtree(w, ignore_errors=True)


def catch(id, checks=None):
    d = os.path.join(VERIF, "seeded", id)
    prop = json.load(open(d + "/meta.json"))["property"]
    w = work("catch-" + id)
    out = []
    try:
        subprocess.check_call(["git", "apply", d + "/patch.diff"], cwd=w)
        for c in checks or [prop]:
            env = dict(os.environ, VERIF_REPO=w, VERIF_EVIDENCE="/tmp/ev-" + id, VERIF_SEED="1")
            r = subprocess.run(
                ["python3", "check.py", c, "--tier", "quick"], cwd=VERIF, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT
            )
            t = r.stdout.decode()
            keys = re.findall(r"^VIOLATION.*$", t, re.M)
            out.append("%s:%s%s" % (c, r.returncode, " " + " ".join(re.findall(r"key=\S+|\[[\w?-]+\]", t)[:2]) if keys else ""))
    finally:
        shutil.rmtree(w, ignore_errors=True)
    return "%-34s %s" % (id, "; ".join(out))


def verify(id):
    """Whether a planted bug still counts on the current tree."""
    d = os.path.join(VERIF, "seeded", id)
    w = work("verify-" + id)
    try:
        if subprocess.run(["git", "apply", d + "/patch.diff"], cwd=w).returncode:
            return "%s: does not apply" % id
        if sh("export PYTHONPATH=%s; bash %s/demo.sh" % (w, d), w, 300).returncode == 0:
            return "%s: demo passes with the patch" % id
        if sh("export PYTHONPATH=/repo; bash %s/demo.sh" % d, "/repo", 300).returncode:
            return "%s: demo fails on the clean tree" % id
        bad = None
        for _ in range(2):
            sh(
                "timeout -k 5 150 /opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 --continue-on-collection-errors "
                "-o junit_family=xunit2 --junitxml=/tmp/seedv-%s.xml; "
                "/usr/bin/python3 /opt/vp/results.py /tmp/seedv-%s.json junit:/tmp/seedv-%s.xml" % (id, id, id),
                w,
            )
            bad = STABLE - set(json.load(open("/tmp/seedv-%s.json" % id))["passed"])
            if bad:
                break
        return "%s: %s" % (id, "breaks %s" % sorted(bad)[:3] if bad else "OK")
    finally:
        shutil.rmtree(w, ignore_errors=True)


if __name__ == "__main__":
    a = sys.argv[1:]
    if a and a[0] == "--verify":
        with cf.ThreadPoolExecutor(4) as ex:
            for m in ex.map(verify, a[1:] or sorted(os.listdir(os.path.join(VERIF, "seeded")))):
                print(m, flush=True)
        sys.exit()
    if a and a[0] == "--catch":
        ids = a[1:] or sorted(os.listdir(os.path.join(VERIF, "seeded")))
        for i in ids:
            print(catch(i), flush=True)
    else:
        for f in a:
            exec(open(f).read())
        with cf.ThreadPoolExecutor(6) as ex:
            for m in ex.map(confirm, SPECS):
                print(m, flush=True)
