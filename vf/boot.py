"""Locates the interpreter's dependencies.

The code under test runs with its own environment (/opt/venv). Hypothesis is not part of it, so it is taken, in that
order, from /verif/.deps (made by setup.sh from the offline wheelhouse) or from the tooling venv; both are *appended* to
sys.path so that numpy, pandas... remain the ones of the code under test.
"""
import glob
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


def boot():
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    try:
        import hypothesis  # noqa: F401
    except ImportError:
        candidates = [os.path.join(VERIF, ".deps")]
        candidates += sorted(glob.glob("/opt/veriftools/pyvenv/lib/python3.*/site-packages"))
        for c in candidates:
            if os.path.isdir(os.path.join(c, "hypothesis")):
                sys.path.append(c)
                break
        import hypothesis  # noqa: F401
