#!/usr/bin/env python3
"""check.py <ID> [--tier quick|thorough] [--runs N] | <ID> --replay FILE

Exit 0: held on everything explored; 1: VIOLATION; 2: the check itself failed.
"""
import os
import sys

PY = "/opt/venv/bin/python"
HERE = os.path.dirname(os.path.abspath(__file__))


def reexec():
    want = {
        "PYTHONHASHSEED": "0",
        "PYTHONDONTWRITEBYTECODE": "1",
        "TZ": "UTC",
        "OMP_NUM_THREADS": "1",
        "OPENBLAS_NUM_THREADS": "1",
        "LC_ALL": "C.UTF-8",
        "VERIF_INNER": "1",
    }
    if os.environ.get("VERIF_INNER") != "1":
        env = dict(os.environ)
        keep = env.get("VERIF_HASHSEED")
        env.update(want)
        if keep:
            env["PYTHONHASHSEED"] = keep
        env.pop("PYTHONPATH", None)
        os.execve(PY, [PY, os.path.abspath(__file__)] + sys.argv[1:], env)


if __name__ == "__main__":
    reexec()
    sys.path.insert(0, HERE)
    from sim import runner

    sys.exit(runner.main(sys.argv[1:]))
