"""P25: workers that share a storage directory do not disturb one another, under any interleaving."""
import multiprocessing as mp
import os
import random
import traceback
from copy import copy
from pathlib import Path

import numpy as np
from hypothesis import strategies as st

from ..core import Law, Violation, scratch
from ..gen import apply_config, arr, bits_of_len, need, same_bits
from .. import model as m
from .. import sched
from .p03 import BIN

ASSUMPTIONS = ["a switch between workers happens between two lines of the library (not inside the standard library)",
               "no worker cleans the directory up or changes the switches while others run"]


# ------------------------------------------------------------------------------------------- interleaved workers
@st.composite
def program(draw, n, d, pool):
    ops = []
    for _ in range(draw(st.integers(1, 4))):
        kind = draw(st.sampled_from(["new", "new", "new", "copy", "and", "or", "delete", "clear", "read", "stats", "fit", "fitset"]))
        if kind == "new":
            # the same random state: the workers draw the same file name
            ops.append([kind, draw(bits_of_len(n)), draw(st.sampled_from([0, 0, 0, 1, None]))])
        elif kind in ("and", "or"):
            ops.append([kind, draw(st.integers(0, 3)), draw(st.integers(0, 3)), draw(st.sampled_from([0, 1, None]))])
        elif kind == "copy":
            ops.append([kind, draw(st.integers(0, 3)), draw(st.sampled_from([0, 1, None]))])
        elif kind in ("fit", "fitset"):
            ops.append([kind, draw(st.integers(0, pool - 1)), draw(st.sampled_from([0, 1, None]))])
        else:
            ops.append([kind, draw(st.integers(0, 3))])
    return ops


@st.composite
def strat(draw, tier):
    n = draw(st.sampled_from([2, 4, 6]))
    d = draw(st.integers(1, 2))
    conds = draw(m.conds(d, 2, 3))
    nw = draw(st.sampled_from([2, 2, 2, 3]))
    progs = [draw(program(n, d, len(conds))) for _ in range(nw)]
    tables = [[[draw(m.cell()) for _ in range(d)] for _ in range(n)] for _ in range(nw)]
    ys = [draw(m.y_reg(n)) for _ in range(nw)]
    schedule = [[draw(st.integers(0, nw - 1)), draw(st.one_of(st.integers(1, 6), st.integers(1, 30), st.integers(20, 60)))]
                for _ in range(draw(st.integers(0, 14)))]
    if draw(st.booleans()):  # both begin by writing a file
        for p in progs:
            p.insert(0, ["new", draw(bits_of_len(n)), 0])
    return {"n": n, "lockstep": draw(st.sampled_from([None, 1, 1, 2, 3, 5])), "conds": conds, "programs": progs, "tables": tables, "ys": ys, "schedule": schedule,
            "names": draw(m.names_for(d)), "storage": draw(st.sampled_from(["file", "file", "file", "memory"])),
            "will_compare": draw(st.booleans())}


def check(case):
    from ruleskit import Activation, RuleSet

    apply_config({"will_compare": case["will_compare"]})
    local = case["storage"] == "file"
    m.apply_storage({"will_compare": case["will_compare"], "local": local})
    labels = set()
    lives = [[] for _ in case["programs"]]

    def worker(i):
        live = lives[i]
        rows = [m.nums(r) for r in case["tables"][i]]
        y = m.expand_y(case["ys"][i])
        for step, op in enumerate(case["programs"][i]):
            kind = op[0]
            what = f"worker {i}, step {step} ({kind})"
            seed = op[-1] if kind in ("new", "and", "or", "copy", "fit", "fitset") else None
            if seed is not None:
                random.seed(seed)
            labels.add(kind)
            if kind == "new":
                live.append([Activation(arr(op[1]), to_file=local), op[1]])
            elif kind in ("fit", "fitset"):
                conds = case["conds"]
                if kind == "fit":
                    c = conds[op[1]]
                    r = m.make_rule("reg", c, case["names"])
                    r.fit(y=np.array(y), xs=m.as_array(rows))
                    m.need_act(r.activation, m.act(c, rows), what)
                    want = m.reg_stats(m.act(c, rows), y)
                    m.need_stats(r, {k: want[k] for k in ("prediction", "std", "coverage")}, what, scale=1000)
                    live.append([r._activation, "".join(map(str, m.act(c, rows)))])
                else:
                    rs = RuleSet([m.make_rule("reg", c, case["names"]) for c in conds])
                    rs.fit(y=np.array(y), xs=m.as_array(rows))
                    acts = [m.act(c, rows) for c in conds]
                    for r, a in zip(rs, acts):
                        m.need_act(r.activation, a, what)
                        want = m.reg_stats(a, y)
                        m.need_stats(r, {k: want[k] for k in ("prediction", "std", "coverage")}, what, scale=1000)
                        live.append([r._activation, "".join(map(str, a))])
                    m.need_act(rs.activation, [1 if any(c) else 0 for c in zip(*acts)], what + ": the ruleset")
            elif not live:
                continue
            elif kind in ("and", "or"):
                x, z = live[op[1] % len(live)], live[op[2] % len(live)]
                f, g = BIN[kind]
                live.append([f(x[0], z[0]), g(x[1], z[1])])
            else:
                e = live[op[1] % len(live)]
                if kind == "copy":
                    live.append([copy(e[0]), e[1]])
                elif kind == "delete":
                    live.remove(e)
                    e[0].delete()
                elif kind == "clear":
                    e[0].clear()
                    e[1] = "0" * len(e[1])
                elif kind == "read":
                    need(same_bits(e[0].raw, e[1]), lambda: f"{what}: {e[0].raw!r} instead of {e[1]}")
                elif kind == "stats":
                    need(e[0].nones == e[1].count("1"), lambda: f"{what}: {e[0].nones} ones in {e[1]}")
            for a, b in live[-1:]:
                need(same_bits(a.raw, b), lambda: f"{what}: an activation of {b} reads {a.raw!r}")

    switches = sched.run([lambda i=i: worker(i) for i in range(len(case["programs"]))], case["schedule"],
                         case["lockstep"])
    files = []
    for i, live in enumerate(lives):
        for a, b in live:
            got = a.raw
            need(same_bits(got, b), lambda: f"in the end an activation of worker {i}, {b}, reads {got!r}")
            if a.data_format == "file":
                files.append(str(a.data))
    need(len(set(files)) == len(files), lambda: f"two activations share a file: {files}")
    out = sorted(labels)
    if switches >= 1 and sum(1 for live in lives if live) >= 2:
        out.append("nt")
    return out


# ------------------------------------------------------------------------------------------- real processes
@st.composite
def fork_strat(draw, tier):
    n = draw(st.sampled_from([3, 8, 50]))
    nw = draw(st.integers(2, 4))
    return {"workers": [[draw(bits_of_len(n)) for _ in range(draw(st.integers(2, 12)))] for _ in range(nw)],
            "seed": draw(st.sampled_from([0, 1, None])), "shared": draw(bits_of_len(n))}


def _child(i, vectors, seed, shared, b, barrier, conn):
    from ruleskit import Activation

    try:
        if seed is not None:
            random.seed(seed)  # as a user would do to have reproducible workers
        acts = []
        barrier.wait(30)
        for v in vectors:
            acts.append(Activation(arr(v)))
        barrier.wait(30)
        # What the parent handed over is readable everywhere
        if not same_bits(shared.raw, b):
            raise Violation(f"worker {i} reads {shared.raw!r} in what it was given, instead of {b}")
        combined = [a & shared for a in acts]
        for a, v in zip(acts[::2], vectors[::2]):
            a.delete()
        barrier.wait(30)
        for k, (a, v, c) in enumerate(zip(acts, vectors, combined)):
            if k % 2 and not same_bits(a.raw, v):
                raise Violation(f"worker {i}: an activation of {v} reads {a.raw!r}")
            want = format(int(v, 2) & int(b, 2), f"0{len(b)}b")
            if not same_bits(c.raw, want):
                raise Violation(f"worker {i}: an AND giving {want} reads {c.raw!r}")
        barrier.wait(30)
        for a in acts[1::2] + combined:
            a.delete()
        conn.send(None)
    except BaseException:
        barrier.abort()
        conn.send(traceback.format_exc())
    finally:
        conn.close()
        os._exit(0)


def check_fork(case):
    from ruleskit import Activation

    ctx = mp.get_context("fork")
    shared = Activation(arr(case["shared"]))
    barrier = ctx.Barrier(len(case["workers"]))
    procs = []
    for i, vectors in enumerate(case["workers"]):
        r, w = ctx.Pipe(duplex=False)
        p = ctx.Process(target=_child, args=(i, vectors, case["seed"], shared, case["shared"], barrier, w), daemon=False)
        p.start()
        w.close()
        procs.append((p, r))
    msgs = []
    for p, r in procs:
        try:
            msgs.append(r.recv())
        except EOFError:
            msgs.append("a worker died")
        p.join()
    real = [x for x in msgs if x and "BrokenBarrierError" not in x]
    need(not real, lambda: real[0])
    if any(msgs):
        return ["slow"]  # the machine did not let the workers meet in time
    need(same_bits(shared.raw, case["shared"]), "the vector of the parent changed")
    left = [p for p in (Path(scratch()) / "act").glob("ACTIVATION_VECTOR_*.txt") if p != shared.data]
    need(not left, lambda: f"the workers deleted everything of theirs, but {left} remain")
    return ["nt", "seeded" if case["seed"] is not None else "unseeded"]


LAWS = [
    Law("interleaved", strat, check, quick=1600,
        rule="the workers were switched at least once in the middle of their programs, and at least two of them ended with "
             "activations"),
    Law("processes", fork_strat, check_fork, quick=120, thorough=1500,
        rule="at least two forked workers created activations in the same directory at the same time"),
]
