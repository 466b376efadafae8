#!/usr/bin/env python3
"""Planted bugs (development tool, not a check).

plant.py make DEFS.py        writes seeded/<id>/ from the definitions of DEFS.py
plant.py verify [ID ...]     in scratch copies: applies, tests pass, demo 0 unchanged / non-zero changed, lines original
plant.py catch [ID ...]      runs the check of each bug's property on a patched copy (--all: every check)
"""
import difflib
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(ROOT, "seeded")
REPO = "/repo"
DESELECT = "tests/unit/test_rule_utils.py"
HEAD = """#!/bin/bash
# exit 0: the property holds; run with cwd /repo
D=$(mktemp -d); trap 'rm -rf "$D"' EXIT
export TMPDIR="$D" PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1
H=$(cd "$(dirname "$0")" && pwd)
/opt/venv/bin/python "$H/demo.py" "$D"
"""
PRE = "import os, sys\nsys.path.insert(0, os.getcwd())\nTMP = sys.argv[1]\nimport warnings\nwarnings.simplefilter('ignore')\n"


def make(defs):
    ns = {}
    exec(compile(open(defs).read(), defs, "exec"), ns)
    for s in ns["SEEDS"]:
        d = os.path.join(SEEDED, s["id"])
        os.makedirs(d, exist_ok=True)
        patch = ""
        edits = s["edits"]
        files = []
        for f, _, _ in edits:
            if f not in files:
                files.append(f)
        for f in files:
            src = open(os.path.join(REPO, f)).read()
            new = src
            for g, a, b in edits:
                if g == f:
                    assert new.count(a) == 1, (s["id"], new.count(a), a)
                    new = new.replace(a, b)
            dl = list(difflib.unified_diff(src.splitlines(True), new.splitlines(True), "a/" + f, "b/" + f))
            assert dl, s["id"]
            patch += "".join(x if x.endswith("\n") else x + "\n\\ No newline at end of file\n" for x in dl)
        open(os.path.join(d, "patch.diff"), "w").write(patch)
        open(os.path.join(d, "demo.sh"), "w").write(HEAD)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        open(os.path.join(d, "demo.py"), "w").write(PRE + s["demo"])
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                  open(os.path.join(d, "meta.json"), "w"), indent=1)
    print(len(ns["SEEDS"]), "written")


def copy_repo(d):
    shutil.copytree(REPO, d, ignore=shutil.ignore_patterns("__pycache__"), symlinks=True)


def original_lines(sid):
    """Removed lines of the patch that the base commit does not have."""
    base = subprocess.run(["git", "-C", REPO, "rev-list", "--max-parents=0", "HEAD"], capture_output=True, text=True).stdout.split()[0]
    bad, f, removed = [], None, 0
    for l in open(os.path.join(SEEDED, sid, "patch.diff")):
        if l.startswith("--- a/"):
            f = l[6:].strip()
            src = set(subprocess.run(["git", "-C", REPO, "show", f"{base}:{f}"], capture_output=True, text=True).stdout.split("\n"))
        elif l.startswith("-") and not l.startswith("---"):
            removed += 1
            if l[1:].rstrip("\n") not in src:
                bad.append(l[1:].strip())
    return bad, removed


def verify(sid):
    d = tempfile.mkdtemp(prefix="plant_")
    out = []
    try:
        r = os.path.join(d, "repo")
        copy_repo(r)
        demo = os.path.join(d, "elsewhere")
        shutil.copytree(os.path.join(SEEDED, sid), demo)
        for x in ("patch.diff", "meta.json"):
            os.remove(os.path.join(demo, x))
        run = lambda: subprocess.run(["bash", os.path.join(demo, "demo.sh")], cwd=r, capture_output=True, text=True, timeout=300)
        a = run()
        if a.returncode != 0:
            out.append("demo fails unchanged: " + a.stderr[-400:] + a.stdout[-200:])
        p = subprocess.run(["git", "-C", r, "apply", os.path.join(SEEDED, sid, "patch.diff")], capture_output=True, text=True)
        if p.returncode:
            return sid, ["patch does not apply " + p.stderr]
        a = run()
        if a.returncode == 0:
            out.append("demo passes with the patch")
        elif "AssertionError" not in a.stderr:
            out.append("note: demo ended by " + a.stderr.strip().split("\n")[-1][:150])
        t = os.path.join(d, "tmp")
        os.makedirs(t)
        q = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300", "tests"], cwd=r,
                           env=dict(os.environ, TMPDIR=t, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1"), capture_output=True, text=True)
        fails = [l for l in q.stdout.split("\n") if l.startswith(("FAILED", "ERROR")) and DESELECT not in l]
        if fails:
            out.append("tests fail: " + " | ".join(x[:100] for x in fails[:3]) + f" ({len(fails)})")
        bad, n = original_lines(sid)
        if bad:
            out.append("lines not of the base: " + repr(bad))
        if not n:
            out.append("removes no line")
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return sid, out


def catch(sid, props=None):
    d = tempfile.mkdtemp(prefix="plant_")
    try:
        r = os.path.join(d, "repo")
        copy_repo(r)
        p = subprocess.run(["git", "-C", r, "apply", os.path.join(SEEDED, sid, "patch.diff")], capture_output=True, text=True)
        assert p.returncode == 0, (sid, p.stderr)
        v = os.path.join(d, "verif")
        shutil.copytree(ROOT, v, ignore=shutil.ignore_patterns(".git", "seeded", "replays", "evidence", "__pycache__"))
        prop = json.load(open(os.path.join(SEEDED, sid, "meta.json")))["property"]
        res = {}
        for x in props or [prop]:
            q = subprocess.run(["python3", os.path.join(v, "run.py"), x, "--jobs", "1" if props else "2"],
                               env=dict(os.environ, VERIF_REPO=r, VERIF_SEED=os.environ.get("VERIF_SEED", "1")), capture_output=True, text=True)
            res[x] = q.returncode
            if q.returncode not in (0, 1):
                res[x] = str(q.returncode) + q.stdout[-300:] + q.stderr[-300:]
        return sid, prop, res
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    cmd, args = sys.argv[1], sys.argv[2:]
    if cmd == "make":
        return make(args[0])
    all_ = "--all" in args
    ids = [a for a in args if not a.startswith("--")] or sorted(os.listdir(SEEDED))
    if cmd == "verify":
        with ThreadPoolExecutor(6) as ex:
            for sid, out in ex.map(verify, ids):
                print(sid, "OK" if not [o for o in out if not o.startswith("note")] else "BAD", *out, flush=True)
    else:
        props = [f"P{i:02d}" for i in range(1, 1 + len(json.load(open(os.path.join(ROOT, "MANIFEST.json")))["checks"]))] if all_ else None
        with ThreadPoolExecutor(8 if all_ else 4) as ex:
            for sid, prop, res in ex.map(lambda s: catch(s, props), ids):
                if all_:
                    print(sid, prop, "caught by", [k for k, c in res.items() if c == 1], {k: c for k, c in res.items() if c not in (0, 1)}, flush=True)
                else:
                    print(sid, prop, "CAUGHT" if res[prop] == 1 else "MISSED" if res[prop] == 0 else res[prop], flush=True)


main()
