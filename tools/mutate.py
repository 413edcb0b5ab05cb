"""Automatic mutants of the code, to find what the checks miss.

`python3 tools/mutate.py FILE [--n N] [--seed S] [--func RE] [--checks C01,C02]`: mutants that survive the repository's
stable tests are given to the file's checks; prints those nobody notices (many are equivalent to the original).
"""
import ast
import json
import os
import random
import re
import shutil
import subprocess
import sys
import concurrent.futures as cf
import threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = ". /opt/vp/env.sh; "
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
CHECKS = {
    "pandalone/xleash/_capture.py": "C01 C04",
    "pandalone/xleash/_parse.py": "C01 C04 C08",
    "pandalone/xleash/_lasso.py": "C06 C05 C07 C08 C01 C04 C03",
    "pandalone/xleash/_filter.py": "C07 C08 C21 C01 C05",
    "pandalone/xleash/__init__.py": "C10 C01",
    "pandalone/xleash/io/backend.py": "C02 C11 C03 C01 C04",
    "pandalone/xleash/io/_xlrd.py": "C09",
    "pandalone/mappings.py": "C16 C15",
    "pandalone/pandata.py": "C12 C13 C14 C25 C26",
    "pandalone/components.py": "C15",
    "pandalone/utils.py": "C19 C20 C22 C27 C09",
    "pandalone/xlsutils.py": "C24",
    "bin/bumpver.py": "C23",
}
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot,
       ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.FloorDiv}


def sites(tree, func):
    """Yields (description, mutate-function) pairs; each is applied on a fresh tree by ordinal."""
    out = []

    def doc(n):
        return isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)

    def visit(node, inside):
        if isinstance(node, ast.Assert):
            return
        for field, val in ast.iter_fields(node):
            if isinstance(val, list):
                for i, x in enumerate(val):
                    if isinstance(x, ast.AST):
                        name = getattr(x, "name", None) if isinstance(x, (ast.FunctionDef, ast.ClassDef)) else None
                        ins = inside or bool(name and isinstance(x, ast.FunctionDef) and (not func or re.search(func, name)))
                        if ins and inside and isinstance(x, ast.stmt) and not doc(x) and not isinstance(
                            x, (ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom, ast.Global, ast.Nonlocal, ast.Pass, ast.Assert)
                        ) and not (isinstance(x, ast.Expr) and "log." in ast.unparse(x)):
                            out.append(("drop-stmt", node, field, i))
                            if isinstance(x, ast.Return) and x.value is not None:
                                out.append(("return-none", node, field, i))
                        if ins and isinstance(x, ast.ExceptHandler) and x.type is not None:
                            out.append(("broaden-except", node, field, i))
                            out.append(("narrow-except", node, field, i))
                        if ins and field in ("args", "elts") and len(val) == 2 and i == 0 and isinstance(node, ast.Call):
                            out.append(("swap-args", node, field, i))
                        visit(x, ins)
            elif isinstance(val, ast.AST):
                if inside:
                    if isinstance(val, ast.Compare):
                        out.append(("compare", node, field, None))
                    if isinstance(val, ast.BoolOp):
                        out.append(("and-or", node, field, None))
                        out.append(("drop-first", node, field, None))
                        out.append(("drop-last", node, field, None))
                    if field == "test":
                        out.append(("not", node, field, None))
                        out.append(("true", node, field, None))
                        out.append(("false", node, field, None))
                    if isinstance(val, ast.BinOp) and type(val.op) in BIN and not isinstance(val.left, ast.Constant):
                        out.append(("arith", node, field, None))
                    if isinstance(val, ast.Constant) and type(val.value) in (int, bool):
                        out.append(("const", node, field, None))
                    if isinstance(val, ast.Constant) and val.value is None and not isinstance(node, ast.Return):
                        pass
                    if isinstance(val, ast.Call) and len(val.args) == 1 and not val.keywords:
                        out.append(("unwrap-call", node, field, None))
                    if isinstance(val, ast.IfExp):
                        out.append(("ifexp-body", node, field, None))
                        out.append(("ifexp-else", node, field, None))
                visit(val, inside)

    visit(tree, False)
    return out


def mutate(site):
    kind, node, field, i = site
    val = getattr(node, field)
    if i is not None:
        x = val[i]
        if kind == "drop-stmt":
            val[i] = ast.copy_location(ast.Pass(), x)
        elif kind == "return-none":
            x.value = None
        elif kind == "broaden-except":
            x.type = ast.Name("BaseException" if ast.unparse(x.type) == "Exception" else "Exception", ast.Load())
        elif kind == "narrow-except":
            x.type = ast.Name("ZeroDivisionError", ast.Load())
        elif kind == "swap-args":
            val[0], val[1] = val[1], val[0]
        return
    if kind == "compare":
        t = type(val.ops[0])
        val.ops[0] = CMP[t]()
    elif kind == "and-or":
        val.op = ast.Or() if isinstance(val.op, ast.And) else ast.And()
    elif kind == "drop-first":
        setattr(node, field, val.values[1] if len(val.values) == 2 else ast.BoolOp(val.op, val.values[1:]))
    elif kind == "drop-last":
        setattr(node, field, val.values[0] if len(val.values) == 2 else ast.BoolOp(val.op, val.values[:-1]))
    elif kind == "not":
        setattr(node, field, ast.UnaryOp(ast.Not(), val))
    elif kind in ("true", "false"):
        setattr(node, field, ast.Constant(kind == "true"))
    elif kind == "arith":
        val.op = BIN[type(val.op)]()
    elif kind == "const":
        val.value = (not val.value) if isinstance(val.value, bool) else val.value + 1
    elif kind == "unwrap-call":
        setattr(node, field, val.args[0])
    elif kind == "ifexp-body":
        setattr(node, field, val.body)
    elif kind == "ifexp-else":
        setattr(node, field, val.orelse)


POOL = []
LOCK = threading.Lock()


def copy_dir():
    with LOCK:
        if POOL:
            return POOL.pop()
    w = "/tmp/mutwork-%i-%i" % (os.getpid(), threading.get_ident())
    shutil.rmtree(w, ignore_errors=True)
    subprocess.check_call(["cp", "-a", "/repo", w])
    return w


def sh(cmd, cwd, timeout, env=None):
    try:
        return subprocess.run(["bash", "-c", ENV + cmd], cwd=cwd, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                              env=env, start_new_session=True)
    except subprocess.TimeoutExpired:
        return None


def one(fname, k, desc, src, checks):
    w = copy_dir()
    tag = os.path.basename(w)
    try:
        p = os.path.join(w, fname)
        orig = open(os.path.join("/repo", fname), encoding="utf8", newline="").read()
        open(p, "w", encoding="utf8").write(src)
        j = "/tmp/%s" % tag
        for x in ("xml", "json"):
            if os.path.exists("%s.%s" % (j, x)):
                os.unlink("%s.%s" % (j, x))
        r = sh(
            "timeout -k 5 60 /opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=60 --continue-on-collection-errors "
            "-o junit_family=xunit2 --junitxml=%s.xml >/dev/null 2>&1; /usr/bin/python3 /opt/vp/results.py %s.json junit:%s.xml" % (j, j, j), w, 120)
        try:
            res = json.load(open(j + ".json"))
        except Exception:
            return "tests", desc
        if STABLE - set(res["passed"]):
            return "tests", desc
        env = dict(os.environ, VERIF_REPO=w, VERIF_EVIDENCE="/tmp/ev-" + tag, VERIF_SEED="1")
        for c in checks:
            r = sh("exec timeout -k 5 300 python3 check.py %s --tier quick --procs 2" % c, VERIF, 320, env)
            if r is None:
                return "hang:" + c, desc
            if r.returncode == 1 and b"\nVIOLATION" in b"\n" + r.stdout:
                return "caught:" + c, desc
            if r.returncode:
                return "BROKEN:%s:%s" % (c, r.stdout.decode()[-300:]), desc
        return "MISSED", desc
    finally:
        open(p, "w", encoding="utf8", newline="").write(orig)
        with LOCK:
            POOL.append(w)


def main():
    import argparse

    ap = argparse.ArgumentParser()
    ap.add_argument("file")
    ap.add_argument("--n", type=int, default=60)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--func")
    ap.add_argument("--checks")
    ap.add_argument("-j", type=int, default=5)
    a = ap.parse_args()
    text = open(os.path.join("/repo", a.file), encoding="utf8").read()
    n = len(sites(ast.parse(text), a.func))
    ks = list(range(n))
    random.Random(a.seed).shuffle(ks)
    base = ast.unparse(ast.parse(text)).splitlines()
    todo = []
    seen = set()
    for k in ks[: a.n]:
        t = ast.parse(text)
        s = sites(t, a.func)[k]
        mutate(s)
        try:
            src = ast.unparse(ast.fix_missing_locations(t))
        except Exception:
            continue
        if src in seen or src.splitlines() == base:
            continue
        seen.add(src)
        import difflib

        d = [l for l in difflib.unified_diff(base, src.splitlines(), lineterm="", n=1) if not l.startswith(("---", "+++"))]
        todo.append((k, s[0], src, "\n".join(d[:14])))
    print("%i sites, %i mutants of %s" % (n, len(todo), a.file), flush=True)
    checks = (a.checks.replace(",", " ") if a.checks else CHECKS[a.file]).split()
    tally = {}
    with cf.ThreadPoolExecutor(a.j) as ex:
        fs = {ex.submit(one, a.file, k, (kind, d), src, checks): k for k, kind, src, d in todo}
        for f in cf.as_completed(fs):
            st, (kind, d) = f.result()
            tally[st.split(":")[0]] = tally.get(st.split(":")[0], 0) + 1
            if st not in ("tests",) and not st.startswith("caught"):
                print("== #%i %s [%s]\n%s" % (fs[f], st, kind, d), flush=True)
            elif st != "tests":
                print("-- #%i %s" % (fs[f], st), flush=True)
    print("TALLY", a.file, tally, flush=True)
    for w in POOL:
        shutil.rmtree(w, ignore_errors=True)
        shutil.rmtree("/tmp/ev-" + os.path.basename(w), ignore_errors=True)


if __name__ == "__main__":
    main()
