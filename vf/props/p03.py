"""P03: logical operators act point by point whatever the storage formats, and leave their operands alone."""
import sys

import numpy as np
from hypothesis import strategies as st

from ..core import Law
from ..gen import (arr, bits, bits_of_len, config, apply_config, act_spec, make_activation, same_bits, need, nontrivial_bits,
                   look, looked_at)
from .p01 import check_view

ASSUMPTIONS = ["vectors are not empty", "multi_logical_xor is only specified for one or two vectors"]


def b_and(x, y):
    return "".join("1" if p == q == "1" else "0" for p, q in zip(x, y))


def b_or(x, y):
    return "".join("1" if "1" in (p, q) else "0" for p, q in zip(x, y))


def b_xor(x, y):
    return "".join("1" if p != q else "0" for p, q in zip(x, y))


def b_sub(x, y):
    return "".join("1" if p == "1" and q == "0" else "0" for p, q in zip(x, y))


BIN = {"and": (lambda a, c: a & c, b_and), "or": (lambda a, c: a | c, b_or), "xor": (lambda a, c: a ^ c, b_xor),
       "sub": (lambda a, c: a - c, b_sub), "add": (lambda a, c: a + c, b_or)}


@st.composite
def program(draw, tier):
    n = draw(st.integers(0, 79).flatmap(lambda k: st.integers(1, 16) if k < 52 else st.integers(17, 700) if k < 79 else
                                        st.sampled_from([32769, 65537, 70000])))
    k = draw(st.integers(2, 4))
    vecs = [draw(bits_of_len(n)) for _ in range(k)]
    specs = [draw(act_spec()) for _ in range(k)]
    nops = draw(st.integers(1, 5))
    ops, size = [], k
    for _ in range(nops):
        kind = draw(st.sampled_from(["and", "or", "xor", "sub", "add", "and", "or", "xor", "mand", "mor", "mxor"]))
        if kind in ("mand", "mor"):
            idx = draw(st.lists(st.integers(0, size - 1), min_size=1, max_size=5))
        elif kind == "mxor":
            idx = draw(st.lists(st.integers(0, size - 1), min_size=1, max_size=2))
        else:
            idx = [draw(st.integers(0, size - 1)), draw(st.integers(0, size - 1))]
        asarray = kind[0] == "m" and draw(st.booleans())
        ops.append([kind, idx, asarray])
        if not asarray:
            size += 1
    return {"vecs": vecs, "specs": specs, "ops": ops, "look": draw(look()), "cfg": draw(config()),
            "memory": draw(st.sampled_from(["ok", "ok", "ok", "low", "error"]))}


class _Mem:
    def __init__(self, available):
        self.available = available


def with_memory(mode, fun):
    """Runs fun with the memory of the machine looking short (low), too short to stack anything (none), or with numpy
    failing once to stack many vectors (error)."""
    import psutil
    from ruleskit import Activation

    if mode in ("low", "none"):
        old, calls = psutil.virtual_memory, [0]

        def fake(*_, **__):
            calls[0] += 1
            return _Mem(100e6 if calls[0] % 2 else 90e6 if mode == "low" else 10e6)

        psutil.virtual_memory = fake
        Activation.NCPUS = 1000
        try:
            return fun()
        finally:
            psutil.virtual_memory = old
            Activation.NCPUS = 1
    if mode == "error":
        old, failed = np.vstack, [False]

        def fake(arrays, *args, **kwargs):
            # what pandas stacks for itself is none of our business
            ours = sys._getframe(1).f_globals.get("__name__", "").startswith("ruleskit")
            if ours and not failed[0] and len(arrays) > 2:
                failed[0] = True
                raise MemoryError("injected")
            return old(arrays, *args, **kwargs)

        np.vstack = fake
        try:
            return fun()
        finally:
            np.vstack = old
    return fun()


def check(case):
    from ruleskit import Activation

    apply_config(case["cfg"])
    acts = [make_activation(b, s, tag=str(i)) for i, (b, s) in enumerate(zip(case["vecs"], case["specs"]))]
    model = list(case["vecs"])
    labels = ["mem_" + case["memory"]]
    for step, (kind, idx, asarray) in enumerate(case["ops"]):
        labels.append(kind)
        if kind in BIN:
            f, g = BIN[kind]
            labels.append("-".join(sorted({str(acts[i].data_format) for i in idx})))
            r = f(acts[idx[0]], acts[idx[1]])
            m = g(model[idx[0]], model[idx[1]])
        else:
            sel = [acts[i] for i in idx]
            fun = {"mand": Activation.multi_logical_and, "mor": Activation.multi_logical_or,
                   "mxor": Activation.multi_logical_xor}[kind]
            r = with_memory(case["memory"], lambda: fun(sel, asarray))
            g = {"mand": b_and, "mor": b_or, "mxor": b_xor}[kind]
            m = model[idx[0]]
            for i in idx[1:]:
                m = g(m, model[i])
        if asarray:
            need(isinstance(r, np.ndarray) and same_bits(r, m), lambda: f"{kind} as array: got {r!r}, expected {m}")
            continue
        need(isinstance(r, Activation), lambda: f"{kind} returned a {type(r)}")
        if looked_at(case["look"], step, len(case["ops"])):
            need(same_bits(r.raw, m), lambda: f"{kind} on {[model[i] for i in idx]}: got {r.raw!r}, expected {m}")
            check_view(r, m, "nones")
            check_view(r, m, "length")
        acts.append(r)
        model.append(m)
    for a, m in zip(acts, model):
        check_view(a, m, "raw")
        check_view(a, m, "nones")
        check_view(a, m, "coverage")
    if any(nontrivial_bits(m) for m in case["vecs"]):
        labels.append("nt")
    return labels


@st.composite
def pair(draw, tier):
    n = draw(st.integers(0, 19).flatmap(lambda k: st.integers(1, 10) if k < 9 else st.integers(1, 300) if k < 18 else
                                        st.sampled_from([2049, 4097, 32769, 65537])))
    a = draw(bits_of_len(n))
    how = draw(st.sampled_from(["free", "subset", "superset", "same", "disjoint"]))
    c = draw(bits_of_len(n))
    if how == "subset":
        c = b_and(a, c)
    elif how == "superset":
        c = b_or(a, c)
    elif how == "same":
        c = a
    elif how == "disjoint":
        c = b_sub(c, a)
    return {"a": a, "b": c, "sa": draw(act_spec()), "sb": draw(act_spec()), "cfg": draw(config())}


def check_pair(case):
    apply_config(case["cfg"])
    a, c = case["a"], case["b"]
    A, C = make_activation(a, case["sa"], "a"), make_activation(c, case["sb"], "b")
    sub = all(not (q == "1" and p == "0") for p, q in zip(a, c))
    got = C in A
    need(got is sub or got == sub, lambda: f"{c} in {a} is {got}")
    corr = sum(p == q for p, q in zip(a, c)) / len(a)
    got = A.get_correlation(C)
    need(abs(got - corr) < 1e-12, lambda: f"correlation of {a} and {c} is {got}, not {corr}")
    need(abs(C.get_correlation(A) - corr) < 1e-12, lambda: f"correlation of {c} and {a} is not {corr}")
    for x, m in ((A, a), (C, c)):
        check_view(x, m, "raw")
        check_view(x, m, "nones")
    return ["nt" if nontrivial_bits(a) and "1" in c else "plain", "contained" if sub else "not_contained"]


def mismatch_strat(tier):
    return st.fixed_dictionaries({
        "a": bits(tier, max_small=10), "b": bits(tier, max_small=10), "sa": act_spec(), "sb": act_spec(),
        "cfg": config(), "op": st.sampled_from(["and", "or", "xor", "sub", "add", "corr"])})


def check_mismatch(case):
    a, c = case["a"], case["b"]
    if len(a) == len(c):
        return ["same_length"]
    apply_config(case["cfg"])
    A, C = make_activation(a, case["sa"], "a"), make_activation(c, case["sb"], "b")
    try:
        r = A.get_correlation(C) if case["op"] == "corr" else BIN[case["op"]][0](A, C)
    except ValueError:
        check_view(A, a, "raw")
        check_view(C, c, "raw")
        return ["nt"]
    need(False, lambda: f"{case['op']} of vectors of lengths {len(a)} and {len(c)} gave {r!r}")


LAWS = [
    Law("program", program, check, quick=6000, rule="some operand has both zeros and ones; operands come from drawn "
        "input formats under drawn storage switches, operators are chained on each other's results"),
    Law("contains_correlation", pair, check_pair, quick=3000, rule="first vector has zeros and ones, second has ones"),
    Law("length_mismatch", mismatch_strat, check_mismatch, quick=1200, rule="the two lengths differ"),
]
