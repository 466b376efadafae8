#!/usr/bin/env python3
"""Mutation study of the checks (development tool, not a check).

mutate.py list OUT.json                      writes the mutants of ruleskit's source
mutate.py tests MUT.json OUT.json            keeps those that pass the repository's tests
mutate.py checks MUT.json OUT.json [SCALE]   runs every check on them, in copies of the repository
"""
import ast
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = os.environ.get("MUT_REPO")
REPO = BASE or "/repo"  # tree that the list of mutants was made on
FILES = ["activation.py", "condition.py", "rule.py", "ruleset.py", "thresholds.py", "utils/rfunctions.py", "utils/rule_utils.py"]
RELEVANT = {
    "activation.py": "P01 P02 P03 P04 P14 P13 P22 P24 P25 P26 P30", "condition.py": "P05 P06 P07 P08 P22 P19 P18 P21 P27 P28 P31",
    "rule.py": "P09 P10 P11 P13 P23 P20 P15 P08 P07 P14 P22 P05 P18 P24 P26 P29 P30 P27 P32 P31", "ruleset.py": "P14 P15 P16 P17 P19 P20 P23 P18 P22 P12 P07 P26 P27 P28 P29 P30 P24 P32 P31",
    "thresholds.py": "P20 P14 P29 P31", "utils/rfunctions.py": "P12 P09 P10 P15 P16 P17 P23 P32 P22", "utils/rule_utils.py": "P21",
}
SKIP_FUNCS = ("time_", "sizeof_", "n_")


def mutants(rel):
    path = os.path.join(REPO, "ruleskit", rel)
    src = open(path).read()
    lines = src.split("\n")
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l.encode()) + 1)
    b = src.encode()

    def off(line, col):
        return starts[line - 1] + col

    def span(n):
        return off(n.lineno, n.col_offset), off(n.end_lineno, n.end_col_offset)

    out = []

    def add(n, new, what):
        s, e = span(n)
        old = b[s:e].decode()
        if old != new:
            out.append({"file": rel, "start": s, "end": e, "old": old, "new": new, "line": n.lineno, "what": what})

    tree = ast.parse(src)
    CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not",
           ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
    BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.BitAnd: "|", ast.BitOr: "&", ast.BitXor: "|",
           ast.FloorDiv: "*", ast.Mod: "*", ast.Pow: "*"}

    def text(n):
        s, e = span(n)
        return b[s:e].decode()

    def is_log(n):
        return isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and text(n.value.func).startswith("logger")

    def walk(n, func):
        if isinstance(n, (ast.FunctionDef,)):
            func = n.name
            if func.startswith(SKIP_FUNCS):
                return
        if is_log(n) or isinstance(n, ast.Raise):
            return
        if isinstance(n, ast.Assign) and any("_time_" in text(t) or "._n_" in text(t) or "._sizeof" in text(t) or text(t) == "t0" for t in n.targets):
            return
        if isinstance(n, ast.AugAssign) and ("._n_" in text(n.target)):
            return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            return  # docstring
        if isinstance(n, ast.arguments):
            for d in n.defaults:
                walk(d, func)
            return
        if isinstance(n, ast.AnnAssign):
            if n.value is not None:
                walk(n.value, func)
            return
        if func is not None:
            if isinstance(n, ast.Compare) and len(n.ops) == 1:
                l, r = text(n.left), text(n.comparators[0])
                add(n, f"{l} {CMP[type(n.ops[0])]} {r}", "compare")
                if isinstance(n.ops[0], (ast.Lt, ast.GtE)):
                    add(n, f"{l} {'>' if isinstance(n.ops[0], ast.Lt) else '<'} {r}", "compare2")
                if isinstance(n.ops[0], (ast.Gt, ast.LtE)):
                    add(n, f"{l} {'<' if isinstance(n.ops[0], ast.Gt) else '>'} {r}", "compare2")
            if isinstance(n, ast.BoolOp):
                op = " or " if isinstance(n.op, ast.And) else " and "
                add(n, "(" + op.join(text(v) for v in n.values) + ")", "boolop")
                for i in range(len(n.values)):
                    rest = [text(v) for j, v in enumerate(n.values) if j != i]
                    add(n, "(" + (" and " if isinstance(n.op, ast.And) else " or ").join(rest) + ")", "drop operand")
            if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
                add(n, f"({text(n.operand)})", "not")
            if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Invert)):
                add(n, f"({text(n.operand)})", "unary")
            if isinstance(n, ast.Constant):
                if n.value is True or n.value is False:
                    add(n, str(not n.value), "bool")
                elif isinstance(n.value, int):
                    add(n, str(n.value + 1), "int+")
                    if n.value > 0:
                        add(n, str(n.value - 1), "int-")
                elif isinstance(n.value, float):
                    add(n, str(n.value * 2 + 1), "float")
            if isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(n.left, ast.JoinedStr):
                add(n, f"({text(n.left)} {BIN[type(n.op)]} {text(n.right)})", "binop")
            if isinstance(n, ast.If):
                add(n.test, "True", "if true")
                add(n.test, "False", "if false")
            if isinstance(n, ast.IfExp):
                add(n, text(n.body), "ifexp body")
                add(n, text(n.orelse), "ifexp else")
            if isinstance(n, (ast.Assign, ast.AugAssign)) or (isinstance(n, ast.Expr) and isinstance(n.value, ast.Call)):
                add(n, "pass", "delete")
            if isinstance(n, (ast.Continue, ast.Break)):
                add(n, "pass", "delete")
            if isinstance(n, ast.AugAssign):
                add(n, f"{text(n.target)} = {text(n.value)}", "augassign")
            if isinstance(n, ast.Call):
                f = text(n.func)
                if f in ("copy", "copy.deepcopy", "copy.copy", "list", "set", "sorted", "float", "int", "str", "abs", "frozenset", "tuple") and len(n.args) == 1 and not n.keywords:
                    add(n, text(n.args[0]), "unwrap")
                if isinstance(n.func, ast.Attribute) and n.func.attr in ("copy", "raw", "reindex", "dropna", "fillna", "replace", "squeeze", "astype"):
                    add(n, text(n.func.value), "drop method")
                if f in ("min", "max"):
                    add(n.func, "max" if f == "min" else "min", "minmax")
                if f in ("any", "all"):
                    add(n.func, "all" if f == "any" else "any", "anyall")
                for kw in n.keywords:
                    if kw.arg is not None and not f.startswith("logger"):
                        parts = [text(a) for a in n.args] + [(k.arg + "=" if k.arg else "**") + text(k.value) for k in n.keywords if k is not kw]
                        add(n, f"{f}({', '.join(parts)})", "drop kwarg " + kw.arg)
            if isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, ast.Constant):
                add(n, "return None", "return none")
            if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
                add(n, text(n.value), "drop slice")
        for c in ast.iter_child_nodes(n):
            walk(c, func)

    walk(tree, None)
    seen, res = set(), []
    for o in out:
        k = (o["start"], o["end"], o["new"])
        if k in seen:
            continue
        seen.add(k)
        new = b[:o["start"]] + o["new"].encode() + b[o["end"]:]
        try:
            ast.parse(new.decode())
        except SyntaxError:
            continue
        o["id"] = f"{rel.replace('/', '_')}:{o['line']}:{len(res)}"
        res.append(o)
    return res


def make_copy(d):
    os.makedirs(d, exist_ok=True)
    for x in ("ruleskit", "tests", "setup.py", "setup.cfg", "versioneer.py"):
        s = os.path.join("/repo", x)
        if os.path.isdir(s):
            shutil.copytree(s, os.path.join(d, x), dirs_exist_ok=True, ignore=shutil.ignore_patterns("__pycache__"))
        else:
            shutil.copy(s, d)


def apply(d, mu):
    p = os.path.join(REPO, "ruleskit", mu["file"])
    b = open(p, "rb").read()
    assert b[mu["start"]:mu["end"]].decode() == mu["old"], mu["id"]
    out = os.path.join(d, "ruleskit", mu["file"])
    with open(out, "wb") as f:
        f.write(b[:mu["start"]] + mu["new"].encode() + b[mu["end"]:])
    if BASE:  # the list was made on an older tree: bring the changes made since into the mutant
        subprocess.run(["git", "merge-file", "--ours", "-q", out, p, os.path.join("/repo/ruleskit", mu["file"])], check=True)


def restore(d, mu):
    shutil.copy(os.path.join("/repo", "ruleskit", mu["file"]), os.path.join(d, "ruleskit", mu["file"]))


def pool(items, work, n=int(os.environ.get("MUT_JOBS", "8"))):
    import queue
    q = queue.Queue()
    dirs = [tempfile.mkdtemp(prefix="mut_") for _ in range(n)]
    for d in dirs:
        make_copy(d)
        q.put(d)

    def run(it):
        d = q.get()
        try:
            apply(d, it)
            return work(d, it)
        finally:
            restore(d, it)
            q.put(d)
    try:
        with ThreadPoolExecutor(n) as ex:
            for k, r in enumerate(ex.map(run, items)):
                yield r
                if k % 50 == 49:
                    print(k + 1, "/", len(items), flush=True)
    finally:
        for d in dirs:
            shutil.rmtree(d, ignore_errors=True)


ENV = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")


def run_tests(d, mu):
    t = os.path.join(d, "tmp")
    shutil.rmtree(t, ignore_errors=True)
    os.makedirs(t)
    try:
        r = subprocess.run(
            ["/opt/venv/bin/python", "-m", "pytest", "-x", "-q", "-p", "no:cacheprovider", "--timeout=60",
             "--deselect", "tests/unit/test_rule_utils.py::test_extract_rules_from_tree", "tests"],
            cwd=d, env=dict(ENV, TMPDIR=t), capture_output=True, timeout=180)
        return dict(mu, tests=r.returncode == 0)
    except subprocess.TimeoutExpired:
        return dict(mu, tests=False)


def run_checks(scale, props=None):
    def f(d, mu):
        order = RELEVANT[mu["file"]].split()
        if props:
            order = props
        log = []
        for p in order:
            try:
                r = subprocess.run(["python3", os.path.join(d, "verif", "run.py"), p, "--jobs", "1", "--scale", str(scale), "--budget", "100"],
                                   env=dict(ENV, VERIF_REPO=d, VF_NO_SHRINK="1"), capture_output=True, text=True, timeout=400)
            except subprocess.TimeoutExpired:
                log.append((p, "timeout"))
                continue
            if r.returncode == 1:
                return dict(mu, caught=p, log=log)
            if r.returncode != 0:
                log.append((p, r.stdout[-300:] + r.stderr[-300:]))
        return dict(mu, caught=None, log=log)
    return f


def main():
    cmd = sys.argv[1]
    if cmd == "list":
        out = [x for f in FILES for x in mutants(f)]
        for i, x in enumerate(out):
            x["id"] = f"M{i}"
        json.dump(out, open(sys.argv[2], "w"), indent=0)
        print(len(out))
    elif cmd == "tests":
        items = json.load(open(sys.argv[2]))
        res = [r for r in pool(items, run_tests) if r["tests"]]
        json.dump(res, open(sys.argv[3], "w"), indent=0)
        print(len(res), "of", len(items), "survive the tests")
    elif cmd == "checks":
        items = json.load(open(sys.argv[2]))
        scale = float(sys.argv[4]) if len(sys.argv) > 4 else 0.1
        props = sys.argv[5].split() if len(sys.argv) > 5 else None
        inner = run_checks(scale, props)

        def work(d, mu):
            v = os.path.join(d, "verif")
            if not os.path.isdir(v):
                shutil.copytree(ROOT, v, ignore=shutil.ignore_patterns(".git", "seeded", "replays", "evidence", "__pycache__"))
            return inner(d, mu)
        res = list(pool(items, work))
        json.dump(res, open(sys.argv[3], "w"), indent=0)
        print(sum(1 for r in res if r["caught"]), "of", len(res), "caught")


main()
