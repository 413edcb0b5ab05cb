"""Core of the deterministic simulator: choice traces, run contexts, shrinking, search.

One simulated execution ("run") is a pure function of a *choice trace*: a list
of blocks, each a list of small ints.  Block 0 is the configuration, the rest
are the simulated operations/steps.  While searching, choices come from a PRNG
seeded by (VERIF_SEED, property, run index); while replaying or shrinking they
come from a recorded trace, and whatever the trace does not hold is 0, which by
convention always means "the simplest thing, no fault".
"""
import collections
import hashlib
import json
import logging
import os
import pickle
import random
import signal
import sys
import threading
import traceback


class Violation(BaseException):
    """A property was broken. BaseException: code under test must not swallow it."""

    def __init__(self, key, msg):
        super().__init__("%s: %s" % (key, msg))
        self.key = key
        self.msg = msg


class StepBudget(BaseException):
    """The run exceeded its budget (wall alarm or line-steps)."""


class Choices:
    def __init__(self, rng=None, trace=None):
        self.rng = rng
        self.replaying = trace is not None
        self.src = [list(b) for b in trace] if trace is not None else []
        self.out = [[]]
        self.pos = 0
        self.bi = 0

    # -- blocks
    def _open_block(self):
        self.out.append([])
        self.bi += 1
        self.pos = 0

    def ops(self, lo, hi):
        """Iterate over operations; each one is a block of its own."""
        if self.replaying:
            while self.bi + 1 < len(self.src):
                self._open_block()
                yield self.bi
        else:
            n = self.rng.randint(lo, hi)
            for _ in range(n):
                self._open_block()
                yield self.bi

    # -- draws
    def draw(self, n):
        """An int in [0, n)."""
        if n <= 1:
            v = 0
        elif self.replaying:
            blk = self.src[self.bi] if self.bi < len(self.src) else ()
            v = blk[self.pos] if self.pos < len(blk) else 0
            v = v if 0 <= v < n else n - 1 if v >= n else 0
        else:
            v = self.rng.randrange(n)
        self.pos += 1
        self.out[-1].append(v)
        return v

    def pick(self, seq):
        return seq[self.draw(len(seq))]

    def weighted(self, pairs):
        """`pairs`: [(weight, value)], the first is the simplest."""
        tot = sum(w for w, _ in pairs)
        x = self.draw(tot)
        for w, v in pairs:
            if x < w:
                return v
            x -= w

    def chance(self, pct):
        """True with `pct`% probability; 0 in the trace means False."""
        return self.draw(100) >= 100 - pct

    def trace(self):
        out = [list(b) for b in self.out]
        for b in out:
            while b and b[-1] == 0:
                b.pop()
        return out


def h(obj):
    return hashlib.blake2b(repr(obj).encode("utf-8", "backslashreplace"), digest_size=8).hexdigest()


class Run:
    """What a property's `run(r)` gets: choices, event log, counters, clock."""

    def __init__(self, choices, keep_log=False):
        self.ch = choices
        self.draw = choices.draw
        self.pick = choices.pick
        self.weighted = choices.weighted
        self.chance = choices.chance
        self.ops = choices.ops
        self.keep_log = keep_log
        self.log_lines = []
        self._dig = hashlib.blake2b(digest_size=8)
        self.faults = collections.Counter()
        self.probes = collections.Counter()
        self.states = set()
        self.evs = collections.Counter()
        self.sim_time = 0.0
        self.n_steps = 0
        self.nontrivial = False
        self.cleanups = []

    def log(self, *parts):
        line = " ".join(p if isinstance(p, str) else repr(p) for p in parts)
        self._dig.update(line.encode("utf-8", "backslashreplace") + b"\n")
        self.n_steps += 1
        if self.keep_log:
            self.log_lines.append(line)

    def fault(self, kind, *detail):
        self.faults[kind] += 1
        self.nontrivial = True
        self.log("FAULT", kind, *detail)

    def probe(self, name, n=1):
        self.probes[name] += n

    def state(self, obj):
        self.states.add(h(obj))

    def tick(self, dt=1.0):
        self.sim_time += dt

    def fail(self, key, msg):
        self.log("VIOLATION", key)
        raise Violation(key, msg)

    def check(self, cond, key, msg):
        if not cond:
            self.fail(key, msg() if callable(msg) else msg)

    def digest(self):
        return self._dig.hexdigest()


Outcome = collections.namedtuple(
    "Outcome", "violation trace digest log faults probes states sim_time steps nontrivial"
)

LINE_BUDGET = 4_000_000
WALL_ALARM = 20


def _from_repo(ex):
    """True if the exception passed through the code under test."""
    from . import repo

    pre = (repo.src_prefix(), os.path.join(repo.REPO, "bin") + os.sep)
    tb = ex.__traceback__
    while tb:
        if os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(pre):
            return True
        tb = tb.tb_next
    return False


def _alarm(signum, frame):
    raise StepBudget("wall alarm")


def execute(mod, choices, keep_log=False, line_budget=None):
    """Run once; harness errors propagate, property violations are returned."""
    r = Run(choices, keep_log)
    viol = None
    use_alarm = (
        line_budget is None and threading.current_thread() is threading.main_thread()
    )
    old_trace = sys.gettrace()
    if use_alarm:
        old = signal.signal(signal.SIGALRM, _alarm)
        signal.setitimer(signal.ITIMER_REAL, WALL_ALARM, 2)
    elif line_budget:
        left = [line_budget]

        def tracer(frame, event, arg):
            left[0] -= 1
            if left[0] < 0:
                raise StepBudget("line budget")
            return tracer

        sys.settrace(tracer)
    try:
        mod.run(r)
    except Violation as v:
        viol = (v.key, v.msg)
    except StepBudget:
        if use_alarm:
            viol = ("__alarm__", "wall alarm")
        else:
            viol = ("no-progress", "more than %i line-steps without finishing" % line_budget)
            r.log("VIOLATION", viol[0])
    except Exception as ex:
        txt = "".join(traceback.format_exception_only(type(ex), ex)).strip()[:500]
        if _from_repo(ex):
            viol = ("unexpected-%s" % type(ex).__name__, "code under test raised: %s" % txt)
        elif os.environ.get("VERIF_STRICT"):
            raise
        else:
            # The code under test handed out something of a shape no correct
            # execution produces, and the judging code tripped over it.
            where = traceback.extract_tb(ex.__traceback__)[-1]
            viol = (
                "uninterpretable-%s" % type(ex).__name__,
                "what was observed could not be judged: %s (%s:%s)"
                % (txt, os.path.basename(where.filename), where.lineno),
            )
        r.log("VIOLATION", viol[0])
    finally:
        if use_alarm:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, old)
        elif line_budget:
            sys.settrace(old_trace)
        for c in reversed(r.cleanups):
            c()
    if viol and viol[0] == "__alarm__":
        # Decide by counted steps, never by the clock.
        return execute(mod, Choices(trace=choices.trace()), keep_log, LINE_BUDGET)
    return Outcome(
        viol,
        choices.trace(),
        r.digest(),
        r.log_lines,
        r.faults,
        r.probes,
        r.states,
        r.sim_time,
        r.n_steps,
        r.nontrivial,
    )


def rng_for(seed, prop, idx):
    d = hashlib.sha256(("%s/%s/%s" % (seed, prop, idx)).encode()).digest()
    return random.Random(int.from_bytes(d[:16], "big"))


def run_index(mod, seed, idx, keep_log=False):
    return execute(mod, Choices(rng=rng_for(seed, mod.ID, idx)), keep_log)


def run_trace(mod, trace, keep_log=False):
    return execute(mod, Choices(trace=trace), keep_log)


# ---------------------------------------------------------------- shrinking


def _size(t):
    return (len(t), sum(len(b) for b in t), sum(sum(b) for b in t))


def violates(mod, trace, key):
    o = run_trace(mod, trace)
    return bool(o.violation) and o.violation[0] == key


def forked(fn, *args):
    """`fn(*args)` in a forked child: no state survives from one try to the next."""
    rd, wr = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(rd)
            data = pickle.dumps(fn(*args))
            with os.fdopen(wr, "wb") as f:
                f.write(data)
            code = 0
        finally:
            os._exit(code)
    os.close(wr)
    with os.fdopen(rd, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(data) if data else None


def shrink(mod, trace, key, budget=600, max_s=60):
    """Minimise `trace` while the same violation class keeps appearing."""
    import time

    t_end = time.monotonic() + max_s
    left = [budget]
    best = [list(b) for b in trace]

    def attempt(t):
        if left[0] <= 0 or time.monotonic() > t_end:
            return False
        left[0] -= 1
        return forked(violates, mod, t, key) is True

    improved = True
    while improved and left[0] > 0:
        improved = False
        # 1. drop runs of blocks (never block 0)
        n = max(1, (len(best) - 1) // 2)
        while n >= 1:
            i = 1
            while i < len(best):
                cand = best[:i] + best[i + n :]
                if len(cand) < len(best) and attempt(cand):
                    best = cand
                    improved = True
                else:
                    i += n
            n //= 2
        # 2. truncate / zero blocks
        for i in range(len(best)):
            for cand_b in ([], best[i][: len(best[i]) // 2]):
                if cand_b != best[i] and len(cand_b) < len(best[i]):
                    cand = best[:i] + [list(cand_b)] + best[i + 1 :]
                    if attempt(cand):
                        best = cand
                        improved = True
                        break
        # 3. reduce single ints
        for i in range(len(best)):
            j = 0
            while j < len(best[i]):
                v = best[i][j]
                for nv in (0, v // 2, v - 1):
                    if 0 <= nv < v:
                        b = list(best[i])
                        b[j] = nv
                        cand = best[:i] + [b] + best[i + 1 :]
                        if attempt(cand):
                            best = cand
                            improved = True
                            break
                j += 1
    return best
