"""P04: activations kept in files never interfere with each other, nor with foreign files, over any history."""
import os
import random
from copy import copy
from pathlib import Path

import numpy as np
from hypothesis import strategies as st

from ..core import Law, scratch
from ..gen import arr, bits_of_len, need, same_bits, scratch_file, source_file, look, looked_at, apply_config
from .p03 import BIN

ASSUMPTIONS = ["one process writes in the directory at a time", "vectors are not empty"]


@st.composite
def history(draw, tier):
    n = draw(st.sampled_from([1, 3, 6, 6, 6, 40, 300]))
    nops = draw(st.integers(2, 14 if tier == "quick" else 30))
    ops = []
    for _ in range(nops):
        kind = draw(st.sampled_from(
            ["new", "new", "new", "copy", "and", "or", "xor", "sub", "delete", "delete", "clear", "reseed", "reseed",
             "chdir", "clean", "foreign", "sibling", "path", "lazy", "read", "write_back", "stat", "compare"]))
        if kind in ("new", "path", "lazy"):
            ops.append([kind, draw(bits_of_len(n)), draw(st.sampled_from([True, True, True, False])),
                        draw(st.sampled_from([True, True, False]))])
        elif kind in BIN or kind == "compare":
            ops.append([kind, draw(st.integers(0, 7)), draw(st.integers(0, 7))])
        elif kind == "reseed":
            ops.append([kind, draw(st.integers(0, 2))])
        elif kind == "chdir":
            ops.append([kind, draw(st.integers(0, 1))])
        elif kind == "foreign":
            ops.append([kind, draw(st.sampled_from(
                ["notes.txt", "ACTIVATION_VECTOR.txt", "MY_ACTIVATION_VECTOR_1.txt", "ACTIVATION_VECTOR_1.npy",
                 "activation_vector_1.txt", "rules.csv"]))])
        elif kind == "sibling":
            ops.append([kind, draw(st.integers(0, 7)), draw(st.sampled_from(["%s7.txt", "%s0.txt", "%s_1.txt", "%s.txt.bak", "%s.npy", "X%s.txt"]))])
        else:
            ops.append([kind, draw(st.integers(0, 7))])
    return {"ops": ops, "look": draw(look()), "force_stat": draw(st.sampled_from([False, False, True]))}


def check(case):
    from ruleskit import Activation

    dirs = [Path(scratch()) / "act", scratch_file("d1")]
    for d in dirs:
        d.mkdir(exist_ok=True)
    apply_config({"force_stat": case["force_stat"]})
    current = 0
    live = []  # [activation, bits, index of its directory]
    foreign = {}
    beside = set()
    sources = {}
    labels = set()

    def listing():
        return {str(f) for d in dirs for f in d.iterdir()}

    def verify():
        # looking must come last: reading may itself change where a vector is kept
        files = [str(a.data) for a, _, _ in live if a.data_format == "file"]
        need(len(set(files)) == len(files), lambda: f"two activations share a file: {files}")
        files = []
        for a, b, _ in live:
            got = a.raw
            need(same_bits(got, b), lambda: f"an activation of {b} now reads {got!r}")
            if a.data_format == "file":
                files.append(str(a.data))
        need(len(set(files)) == len(files), lambda: f"two activations share a file: {files}")
        for p, content in list(foreign.items()) + list(sources.items()):
            need(os.path.isfile(p), lambda: f"file {p} was removed")
            with open(p, "rb") as f:
                need(f.read() == content, lambda: f"file {p} was modified")

    for step, op in enumerate(case["ops"]):
        kind = op[0]
        labels.add(kind)
        if kind == "new":
            live.append([Activation(arr(op[1]), to_file=op[2], optimize=op[3]), op[1], current])
        elif kind in ("path", "lazy"):
            p = source_file(op[1], f"src{step}.npy")
            with open(p, "rb") as f:
                content = f.read()
            a = Activation(p, to_file=op[2], lasy=kind == "lazy", optimize=op[3])
            if kind == "path":
                sources[str(p)] = content  # a lasy activation may own the file it was given
            live.append([a, op[1], current])
        elif kind == "reseed":
            random.seed(op[1])
        elif kind == "chdir":
            current = op[1]
            Activation.DEFAULT_TEMPDIR = dirs[current]
        elif kind == "foreign":
            p = dirs[current] / op[1]
            p.write_bytes(b"do not touch")
            foreign[str(p)] = b"do not touch"
        elif kind == "clean":
            keep = [e for e in live if not (e[0].data_format == "file" and Path(e[0].data).parent == dirs[current])]
            Activation.clean_files()
            left = list(dirs[current].glob("ACTIVATION_VECTOR_*.txt"))
            need(not left, lambda: f"clean_files left {left}")
            live = keep
            foreign = {p: c for p, c in foreign.items() if not (p in beside and Path(p).parent == dirs[current])}
        elif not live:
            continue
        elif kind in BIN:
            x, y = live[op[1] % len(live)], live[op[2] % len(live)]
            f, g = BIN[kind]
            live.append([f(x[0], y[0]), g(x[1], y[1]), current])
        elif kind == "compare":
            x, y = live[op[1] % len(live)], live[op[2] % len(live)]
            _ = x[0].length, y[0].length, x[0].raw, y[0].raw  # a lasy vector is given a file of its own when it is read
            before = listing()
            inside, corr = y[0] in x[0], x[0].get_correlation(y[0])
            need(bool(inside) is all(p >= q for p, q in zip(x[1], y[1])), lambda: f"{y[1]} in {x[1]} gives {inside}")
            need(abs(corr - sum(p == q for p, q in zip(x[1], y[1])) / len(x[1])) < 1e-12, lambda: f"correlation of {x[1]} and {y[1]}: {corr}")
            need(listing() == before, lambda: f"a comparison leaves or removes files: {listing() ^ before}")
        else:
            e = live[op[1] % len(live)]
            if kind == "sibling":
                # a file of someone else, named nearly like the one of the activation
                if e[0].data_format == "file" and str(Path(e[0].data).parent) in {str(d) for d in dirs}:
                    p = Path(e[0].data).parent / (op[2] % Path(e[0].data).stem)
                    if not p.exists():
                        p.write_bytes(b"not yours")
                        foreign[str(p)] = b"not yours"
                        if p.match("ACTIVATION_VECTOR_*.txt"):
                            beside.add(str(p))  # clean_files may take it
            elif kind == "copy":
                live.append([copy(e[0]), e[1], current])
            elif kind == "delete":
                path = e[0].data if e[0].data_format == "file" else None
                live = [x for x in live if x is not e]
                e[0].delete()
                need(path is None or not os.path.exists(path), lambda: f"delete left {path}")
                if path is None:
                    need(e[0].data is None, "delete left the data in memory")
                e[0].delete()  # deleting twice is harmless
            elif kind == "clear":
                e[0].clear()
                e[1] = "0" * len(e[1])
            elif kind == "read":
                need(same_bits(e[0].raw, e[1]), lambda: f"read {e[0].raw!r} instead of {e[1]}")
            elif kind == "write_back":
                live.append([Activation(e[0].raw), e[1], current])
            elif kind == "stat":
                _ = e[0].length, e[0].raw
                before = listing()
                for s in ("sizeof_file", "time_read", "time_write", "sizeof_path", "nones", "entropy"):
                    getattr(e[0], s)
                need(listing() == before, lambda: f"figures leave or remove files: {listing() ^ before}")
        if looked_at(case["look"], step, len(case["ops"])):
            verify()
    nfile = sum(1 for e in live if e[0].data_format == "file")
    out = sorted(labels)
    if nfile >= 2 or ("delete" in labels and len(live) >= 1):
        out.append("nt")
    return out


def exhaust_strat(tier):
    return st.fixed_dictionaries({"n": st.integers(2, 130), "seed": st.integers(0, 3)})


def check_exhaust(case):
    """The same name is drawn over and over: every vector must still be kept, on disk or in memory."""
    from ruleskit import Activation

    acts = []
    for i in range(case["n"]):
        random.seed(case["seed"])
        b = format(i, "08b")
        acts.append((Activation(arr(b)), b))
    for a, b in acts:
        need(same_bits(a.raw, b), lambda: f"vector {b} reads {a.raw!r}")
    return ["nt"]


LAWS = [
    Law("history", history, check, quick=4000, rule="at the end at least two activations live in files, or one was "
        "deleted while others live; histories mix creation, copies, operators, deletion, clean-up, directory changes, "
        "foreign files and re-seeding of the random generator (file name collisions)"),
    Law("name_collisions", exhaust_strat, check_exhaust, quick=40, examples=[{"n": 120, "seed": 0}],
        rule="at least two activations drew the same file name"),
]
