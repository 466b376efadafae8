#!/usr/bin/env python3
"""run.py PROPERTY [--tier quick|thorough] [--seed N] [--jobs N] [--scale X] | run.py --replay FILE"""
import os
import sys

PY = "/opt/venv/bin/python"
if os.environ.get("VF_CHILD") != "1":
    env = dict(os.environ, VF_CHILD="1", PYTHONHASHSEED="0", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
               PYTHONDONTWRITEBYTECODE="1", PYTHONWARNINGS="ignore")
    py = PY if os.path.exists(PY) else sys.executable
    os.execve(py, [py, os.path.abspath(__file__)] + sys.argv[1:], env)

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vf.boot import boot  # noqa: E402

boot()
import argparse  # noqa: E402
import logging  # noqa: E402

logging.disable(logging.CRITICAL)
from vf import core  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=None)
    ap.add_argument("--seed", type=int, default=None)
    ap.add_argument("--jobs", type=int, default=None)
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--budget", type=float, default=None)
    ap.add_argument("--replay")
    a = ap.parse_args()
    if a.replay:
        return core.replay(a.replay)
    tier = a.tier or os.environ.get("VERIF_TIER", "quick")
    seed = a.seed if a.seed is not None else int(os.environ.get("VERIF_SEED", "1") or 1)
    jobs = a.jobs or min(8, os.cpu_count() or 1)
    return core.check_property(a.property, tier, seed, jobs=jobs, scale=a.scale, budget=a.budget)


if __name__ == "__main__":
    code = main()
    sys.stdout.flush()
    os._exit(code)
