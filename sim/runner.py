"""Seeded search over many simulated runs, evidence, replay files."""
import argparse
import collections
import importlib
import json
import multiprocessing as mp
import os
import subprocess
import sys
import time
import traceback

from . import core, repo

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get("VERIF_EVIDENCE") or os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known_findings.txt")
CAP_S = {"quick": 840, "thorough": 6 * 3600}


def load(pid):
    return importlib.import_module("sim.props." + pid.lower())


def known_keys(pid):
    """Lines: `finding: property=<id> key=<violation-key> <what fails>`."""
    out = {}
    try:
        lines = open(KNOWN, encoding="utf-8").read().splitlines()
    except FileNotFoundError:
        return out
    for ln in lines:
        if ln.startswith("finding: property=%s key=" % pid):
            _, _, k, what = ln.split(" ", 3)
            out[k[len("key=") :]] = what
    return out


def _worker(mod, seed, idxs, q, stop, known):
    agg = {
        "runs": 0,
        "faults": collections.Counter(),
        "probes": collections.Counter(),
        "states": set(),
        "digests": set(),
        "sim_time": 0.0,
        "steps": 0,
        "rechecked": 0,
        "nondet": 0,
        "known": collections.Counter(),
        "viol": None,
        "samples": [],
        "error": None,
    }
    try:
        for idx in idxs:
            if stop.value and stop.value - 1 < idx:
                break
            want_sample = idx < 3
            o = core.run_index(mod, seed, idx, keep_log=want_sample)
            agg["runs"] += 1
            agg["faults"] += o.faults
            agg["probes"] += o.probes
            agg["states"] |= o.states
            agg["sim_time"] += o.sim_time
            agg["steps"] += o.steps
            if o.nontrivial:
                agg["digests"].add(o.digest)
            if want_sample:
                agg["samples"].append((idx, o.log[:60]))
            if o.violation:
                if o.violation[0] in known:
                    agg["known"][o.violation[0]] += 1
                    continue
                agg["viol"] = (idx, o.violation, o.trace, o.digest)
                with stop.get_lock():
                    if not stop.value or idx + 1 < stop.value:
                        stop.value = idx + 1
                break
            if idx % 64 == 0:
                agg["rechecked"] += 1
                o2 = core.run_trace(mod, o.trace)
                if o2.digest != o.digest:
                    agg["nondet"] += 1
    except BaseException:
        agg["error"] = "run %s: %s" % (idx, traceback.format_exc())
        with stop.get_lock():
            stop.value = 1
    q.put(agg)


def search(mod, seed, n_runs, n_proc, known, cap_s):
    ctx = mp.get_context("fork")
    q = ctx.Queue()
    stop = ctx.Value("l", 0)
    procs = [
        ctx.Process(
            target=_worker,
            args=(mod, seed, range(w, n_runs, n_proc), q, stop, known),
        )
        for w in range(n_proc)
    ]
    for p in procs:
        p.start()
    t_end = time.monotonic() + cap_s
    aggs = []
    try:
        for _ in procs:
            while True:
                try:
                    aggs.append(q.get(timeout=5))
                    break
                except Exception:
                    if time.monotonic() > t_end:
                        raise SystemExit("harness: wall cap reached, no answer")
                    if not any(p.is_alive() for p in procs) and q.empty():
                        raise SystemExit("harness: a worker died, no answer")
    finally:
        for p in procs:
            if p.is_alive() and len(aggs) < len(procs):
                p.kill()
            p.join()
    return aggs


def run_after(mod, seed, prelude, trace):
    for i in prelude:
        core.run_index(mod, seed, i)
    return core.run_trace(mod, trace, keep_log=True)


def minimise(mod, seed, idx, viol, trace, n_proc):
    """The smallest (outcome, prelude-runs) showing the violation in a fresh process."""

    def shows(o):
        return o is not None and o.violation and o.violation[0] == viol[0]

    o = core.forked(run_after, mod, seed, [], trace)
    if shows(o):
        small = core.shrink(mod, trace, viol[0])
        o2 = core.forked(run_after, mod, seed, [], small)
        return (o2 if shows(o2) else o), []
    # The violation needs state that earlier runs left in the process.
    prev = list(range(idx % n_proc, idx, n_proc))
    n = 1
    while True:
        pre = prev[-n:]
        o = core.forked(run_after, mod, seed, pre, trace)
        if shows(o) or n >= len(prev):
            break
        n *= 2
    if shows(o):
        k = len(pre) // 2
        tries = 40
        while k and tries:
            i = 0
            while i < len(pre) and tries:
                tries -= 1
                cand = pre[:i] + pre[i + k :]
                oc = core.forked(run_after, mod, seed, cand, trace)
                if shows(oc):
                    pre, o = cand, oc
                else:
                    i += k
            k //= 2
        return o, pre
    o = core.run_trace(mod, trace, keep_log=True)
    return o._replace(violation=viol), prev


def write_replay(mod, seed, idx, viol, trace, digest, orig_digest, log, prelude=(), hashseeds=()):
    d = os.path.join(EVID, "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s.json" % (mod.ID, digest))
    with open(path, "w") as f:
        json.dump(
            {
                "property": mod.ID,
                "seed": seed,
                "run": idx,
                "violation": viol[0],
                "message": viol[1],
                "prelude_runs": list(prelude),
                "hashseeds": list(hashseeds),
                "trace": trace,
                "digest": digest,
                "unminimised_digest": orig_digest,
                "events": log,
            },
            f,
            indent=1,
        )
        f.write("\n")
    return path


def replay(pid, path):
    mod = load(pid)
    d = json.load(open(path))
    if d.get("hashseeds"):
        outs = [inner(pid, hs, ["--digest-of", path]) for hs in d["hashseeds"]]
        for hs, o in zip(d["hashseeds"], outs):
            print("  with hash-seed %s:\n    %s" % (hs, "\n    ".join(o)))
        if outs[0][0] == outs[1][0]:
            print("replay: no violation")
            return 0
        print("replay: digest=%s exact=%s" % (outs[0][0], outs[0][0] == d["digest"]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    o = run_after(mod, d["seed"], d.get("prelude_runs", ()), d["trace"])
    for ln in o.log:
        print("  " + ln)
    if not o.violation:
        print("replay: no violation")
        return 0
    same = o.digest == d["digest"] and o.violation[0] == d["violation"]
    print("replay: %s: %s" % o.violation)
    print("replay: digest=%s exact=%s" % (o.digest, same))
    print("VIOLATION property=%s replay=%s" % (pid, path))
    return 1


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--runs", type=int)
    ap.add_argument("--procs", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("--replay")
    ap.add_argument("--one", type=int, help="run a single index, print its log")
    ap.add_argument("--digests", action="store_true")
    ap.add_argument("--digest-of", help="print the digest of the trace in a replay-file")
    a = ap.parse_args(argv)
    seed = int(os.environ.get("VERIF_SEED") or 1)
    repo.setup()
    try:
        mod = load(a.pid)
        if hasattr(mod, "prepare"):
            mod.prepare()
        if a.digest_of:
            o = core.run_trace(mod, json.load(open(a.digest_of))["trace"], keep_log=True)
            print(o.digest)
            print("\n".join(o.log))
            return 0
        if a.replay:
            return replay(a.pid, a.replay)
        if a.one is not None:
            o = core.run_index(mod, seed, a.one, keep_log=True)
            print("\n".join(o.log))
            print(o.violation, o.digest, o.trace)
            return 1 if o.violation else 0
        if a.digests:
            for i in range(a.runs or 50):
                o = core.run_index(mod, seed, i)
                print(i, o.digest, o.violation and o.violation[0])
            return 0
        return check(mod, a, seed)
    except SystemExit as ex:
        print(ex, file=sys.stderr)
        return 2
    except Exception:
        traceback.print_exc()
        return 2


def inner(pid, hashseed, args):
    """Output lines of this check in an interpreter with the given hash-seed."""
    env = dict(os.environ, VERIF_HASHSEED=str(hashseed))
    env.pop("VERIF_INNER", None)
    p = subprocess.Popen(
        [sys.executable, os.path.join(VERIF, "check.py"), pid] + args,
        env=env, stdout=subprocess.PIPE, text=True,
    )
    out = p.communicate(timeout=600)[0]
    if p.returncode:
        raise SystemExit("harness: hash-seed run of %s failed" % pid)
    return out.splitlines()


def hashseed_search(mod, seed, n):
    """-> None or (run-index, trace, [hash-seeds], digest): the 1st differing history."""
    from concurrent.futures import ThreadPoolExecutor

    seeds = [0] + list(mod.HASHSEEDS)
    with ThreadPoolExecutor(len(seeds)) as ex:
        outs = list(ex.map(lambda hs: inner(mod.ID, hs, ["--digests", "--runs", str(n)]), seeds))
    bad = [
        (i, seeds[k]) for k in range(1, len(seeds)) for i in range(n) if outs[k][i] != outs[0][i]
    ]
    if not bad:
        return None
    idx, hs = min(bad)
    tmp = os.path.join(EVID, "hs-%s-%i.json" % (mod.ID, os.getpid()))
    pair = [0, hs]

    def differs(trace):
        with open(tmp, "w") as f:
            json.dump({"trace": trace}, f)
        with ThreadPoolExecutor(2) as ex:
            a, b = ex.map(lambda hs: inner(mod.ID, hs, ["--digest-of", tmp]), pair)
        return a[0] if a[0] != b[0] else None

    trace = core.forked(trace_of, mod, seed, idx)
    os.makedirs(EVID, exist_ok=True)
    best, dig, left = trace, differs(trace), 30
    if dig is None:
        raise SystemExit("harness: hash-seed difference did not repeat")
    i = len(best) - 1
    while i > 0 and left:
        left -= 1
        cand = best[:i] + best[i + 1 :]
        d = differs(cand)
        if d:
            best, dig = cand, d
        i -= 1
    os.unlink(tmp)
    return idx, best, pair, dig


def trace_of(mod, seed, idx):
    return core.run_index(mod, seed, idx).trace


def check(mod, a, seed):
    t0 = time.monotonic()
    known = known_keys(mod.ID)
    n_runs = a.runs or (mod.QUICK if a.tier == "quick" else mod.THOROUGH)
    aggs = search(mod, seed, n_runs, a.procs, known, CAP_S.get(a.tier, 840))
    errs = [g["error"] for g in aggs if g["error"]]
    viols = sorted(g["viol"] for g in aggs if g["viol"])
    faults = sum((g["faults"] for g in aggs), collections.Counter())
    probes = sum((g["probes"] for g in aggs), collections.Counter())
    runs = sum(g["runs"] for g in aggs)
    states = set().union(*(g["states"] for g in aggs))
    digests = set().union(*(g["digests"] for g in aggs))
    known_hits = sum((g["known"] for g in aggs), collections.Counter())
    wall = time.monotonic() - t0
    samples = sorted((s for g in aggs for s in g["samples"]))
    missing = [p for p in getattr(mod, "PROBES", ()) if not probes.get(p)]
    ev = {
        "property": mod.ID,
        "tier": a.tier if a.tier in ("quick", "thorough") else "quick",
        "seed": seed,
        "level": "exploration",
        "wall_s": round(wall, 3),
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": len(digests),
            "rule": mod.RULE,
            "samples": [{"run": i, "events": l} for i, l in samples] or [{"run": 0}],
            "seeds_used": {"base": seed, "first_run": 0, "last_run": max(0, n_runs - 1)},
            "runs_per_hour": int(runs / max(wall, 1e-6) * 3600),
            "simulated_steps": sum(g["steps"] for g in aggs),
            "simulated_time_s": round(sum(g["sim_time"] for g in aggs), 3),
            "faults_injected": dict(sorted(faults.items())),
            "probes_reached": dict(sorted(probes.items())),
            "probes_missed": missing,
            "distinct_states": len(states),
            "distinct_states_measure": mod.STATES,
            "real_components": mod.REAL,
            "stub_components": mod.STUB,
            "runs_replayed_for_determinism": sum(g["rechecked"] for g in aggs),
            "nondeterministic_replays": sum(g["nondet"] for g in aggs),
            "hash_seeds_compared": [0] + list(getattr(mod, "HASHSEEDS", ())),
            "known_findings_hit": dict(known_hits),
        },
    }
    code = 0
    if viols:
        idx, viol, trace, digest = viols[0]
        o, prelude = minimise(mod, seed, idx, viol, trace, a.procs)
        path = write_replay(mod, seed, idx, o.violation, o.trace, o.digest, digest, o.log, prelude)
        print("%s: run %i, seed %i: %s: %s" % (mod.ID, idx, seed, *o.violation))
        for ln in o.log[-25:]:
            print("    " + ln)
        env = dict(os.environ)
        p = subprocess.run(
            [sys.executable, os.path.join(VERIF, "check.py"), mod.ID, "--replay", path],
            env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300,
        )
        exact = b"exact=True" in p.stdout
        print("replayed in a fresh process: exact=%s" % exact)
        ev["coverage"]["violation"] = {
            "key": o.violation[0], "run": idx, "replay": path, "replayed_exactly": exact,
        }
        print("VIOLATION property=%s replay=%s" % (mod.ID, path))
        code = 1
    elif not errs and getattr(mod, "HASHSEEDS", None) and (hsd := hashseed_search(mod, seed, min(n_runs, mod.HASHSEED_RUNS))):
        idx, trace, pair, digest = hsd
        viol = ("hash-seed-dependent", "the history differs in interpreters with hash-seeds %s" % pair)
        path = write_replay(mod, seed, idx, viol, trace, digest, digest, [], hashseeds=pair)
        ev["coverage"]["violation"] = {"key": viol[0], "run": idx, "replay": path}
        print("%s: run %i, seed %i: %s: %s" % (mod.ID, idx, seed, *viol))
        print("VIOLATION property=%s replay=%s" % (mod.ID, path))
        code = 1
    elif errs:
        print(errs[0], file=sys.stderr)
        code = 2
    elif runs < n_runs:
        print("harness: %i of %i runs" % (runs, n_runs), file=sys.stderr)
        code = 2
    for k in sorted(known):
        if known_hits.get(k) and code != 2:
            print("KNOWN-FINDING: property=%s %s" % (mod.ID, known[k]))
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, mod.ID + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    print(
        "%s tier=%s runs=%i distinct=%i faults=%i states=%i wall=%.1fs exit=%i%s"
        % (mod.ID, a.tier, runs, len(digests), sum(faults.values()), len(states), wall,
           code, " probes_missed=%s" % missing if missing else "")
    )
    return code
