#!/opt/venv/bin/python
"""Runtime-monitoring checks for variantlib.

usage: run.py PID [--tier quick|thorough] [--seed N] [--case workload:index] [-v]

exit 0: held on everything observed; 1: violation (VIOLATION line); 2: inconclusive.
"""
import argparse
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
REPO = os.environ.get("VERIF_REPO", "/repo")  # overridden only during development


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick",
                    choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--case", default=None)
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS") or 8))
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("-v", "--verbose", action="store_true")
    args = ap.parse_args()

    want = {"PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1"}
    if (any(os.environ.get(k) != v for k, v in want.items())
            or os.path.realpath(sys.prefix) != os.path.realpath("/opt/venv")):
        if os.environ.get("VMON_REEXEC"):
            print("harness: cannot get the required interpreter environment", file=sys.stderr)
            return 2
        os.environ.update(want)
        os.environ["VMON_REEXEC"] = "1"
        os.execv(PY, [PY, os.path.abspath(__file__), *sys.argv[1:]])
    os.environ.pop("VMON_REEXEC", None)
    for k in ("PYTHONPATH", "VARIANT_ABI_DEPENDENCY", "PYTHONHOME", "PYTHONSTARTUP"):
        os.environ.pop(k, None)

    sys.path.insert(0, HERE)
    sys.path.insert(0, REPO)
    from vmon import core
    return core.run(args, HERE, REPO)


if __name__ == "__main__":
    sys.exit(main())
