"""P07: equality and hash of conditions, rules and rulesets."""
import numpy as np
from hypothesis import strategies as st

from ..core import Law
from ..gen import need
from .. import model as m

ASSUMPTIONS = ["bounds are not NaN"]

# values whose hashes collide, or that are close, or that are equal with another type
TRAPS = [-1, -2, 0, 1, 2, -1.0, -2.0, 2.0, 1e20, 2 ** 61 - 1, 0.5, "inf", "-inf", 314159, -314159, 1 + 2 ** -52, 1 - 2 ** -53]


@st.composite
def variant(draw, spec, names, d):
    """A second condition that differs from the first in at most a few respects."""
    s = {"f": list(spec["f"]), "lo": list(spec["lo"]), "hi": list(spec["hi"])}
    nm, pos = list(names), list(range(d))
    for kind in draw(st.lists(st.sampled_from(
            ["perm", "lo", "hi", "swap", "rename", "pos", "drop", "type", "none", "exchange"]),
            min_size=1, max_size=2)):
        k = len(s["f"])
        i = draw(st.integers(0, k - 1))
        if kind == "perm":
            p = draw(st.permutations(range(k)))
            s = {key: [s[key][j] for j in p] for key in s}
        elif kind in ("lo", "hi"):
            s[kind][i] = draw(st.one_of(st.sampled_from(TRAPS), m.bound()))
        elif kind == "swap":
            s["lo"][i], s["hi"][i] = s["hi"][i], s["lo"][i]
        elif kind == "rename":
            new = draw(st.sampled_from(["renamed", "c", "X_01"]))
            if new not in nm:
                nm[s["f"][i]] = new
        elif kind == "pos":
            pos = [j + 3 for j in draw(st.permutations(range(d)))]
        elif kind == "drop" and k > 1:
            s = {key: [v for j, v in enumerate(s[key]) if j != i] for key in s}
        elif kind == "type":
            for key in ("lo", "hi"):
                v = s[key][i]
                if not isinstance(v, str) and float(v) == v and abs(v) < 1e6:
                    s[key][i] = float(v) if isinstance(v, int) else int(v)
        elif kind == "exchange" and k > 1:
            # same sets of names and of bounds, attached differently
            j = (i + 1) % k
            s["lo"][i], s["lo"][j] = s["lo"][j], s["lo"][i]
            s["hi"][i], s["hi"][j] = s["hi"][j], s["hi"][i]
    return {"c": s, "names": nm, "pos": pos}


@st.composite
def strat(draw, tier):
    d = draw(m.dims(4))
    names = draw(m.names_for(d))
    spec = draw(m.cond_spec(d, max_f=4))
    if draw(st.booleans()):
        for key in ("lo", "hi"):
            spec[key] = [draw(st.sampled_from(TRAPS)) for _ in spec[key]]
    return {"d": d, "names": names, "cond": spec, "other": draw(variant(spec, names, d)),
            "sort": draw(st.booleans()), "sortby": draw(st.sampled_from(["index", "name"])), "np": draw(st.booleans())}


def canon(spec, names):
    return frozenset((names[f], m.num(a), m.num(b)) for f, a, b in zip(spec["f"], spec["lo"], spec["hi"]))


def check(case):
    from ruleskit import HyperrectangleCondition, RegressionRule, ClassificationRule, Activation

    HyperrectangleCondition.SORT_ACCORDING_TO = case["sortby"]
    a = m.make_condition(case["cond"], case["names"], sort=case["sort"])
    o = case["other"]
    spec = o["c"]
    if case["np"]:
        b = HyperrectangleCondition(
            [np.int64(o["pos"][i]) for i in spec["f"]], [np.float64(m.num(v)) for v in spec["lo"]],
            [np.float64(m.num(v)) for v in spec["hi"]], [o["names"][i] for i in spec["f"]])
        want = canon(case["cond"], case["names"]) == frozenset(
            (n, float(x), float(y)) for n, x, y in canon(spec, o["names"]))
    else:
        b = m.make_condition(spec, o["names"], positions=o["pos"])
        want = canon(case["cond"], case["names"]) == canon(spec, o["names"])

    def verify(x, y, what):
        need((x == y) is want or bool(x == y) == want, lambda: f"{what}: {x} == {y} gives {x == y}")
        need(bool(y == x) == want, lambda: f"{what}: {y} == {x} gives {y == x}")
        need(bool(x != y) == (not want), lambda: f"{what}: {x} != {y} gives {x != y}")
        if want:
            need(hash(x) == hash(y), lambda: f"{what}: equal with different hashes: {x} / {y}")
        need(len({x, y}) == (1 if want else 2), lambda: f"{what}: set of {x} and {y}")
        need((y in [x]) == want, f"{what}: membership in a list")
        need(x == x and y == y and hash(x) == hash(x), f"{what}: not equal to itself")

    verify(a, b, "conditions")
    r1, r2 = RegressionRule(a), RegressionRule(b, Activation(np.array([0, 1, 1])))
    verify(r1, r2, "rules")
    r3 = ClassificationRule(b)
    verify(r1, r3, "rules of two kinds")
    for x in (a, r1):
        for z in (None, 1, "x", str(x), [x], object(), (a if x is r1 else r1)):
            need(not (x == z), lambda: f"{x!r} == {z!r}")
            need(x != z, lambda: f"{x!r} is not different from {z!r}")
    if want:
        return ["nt", "equal"] if case["cond"] != spec or o["pos"] != list(range(case["d"])) else ["identical"]
    return ["nt", "different"]


@st.composite
def set_strat(draw, tier):
    d = draw(m.dims(3))
    pool = draw(m.conds(d, 1, 4))
    # the same bounds grouped otherwise, exchanged between features, or next to each other in hash
    pair = ([], [])
    for c in pool[:2]:
        more = []
        how = draw(st.sampled_from(["none", "split", "cross", "twin", "ends"]))
        k = len(c["f"])
        if how == "split" and k > 1:
            more = [{q: [c[q][i]] for q in c} for i in range(k)]
        elif how == "cross" and k > 1:
            more = [dict(c, lo=c["lo"][1:] + c["lo"][:1]), dict(c, hi=c["hi"][1:] + c["hi"][:1])]
        elif how == "twin":
            more = [dict(c, lo=[-1] + c["lo"][1:]), dict(c, lo=[-2] + c["lo"][1:])]
        elif how == "ends":
            more = [dict(c, lo=c["hi"], hi=c["lo"])]
        for e in more:
            if not any(m.canon(e) == m.canon(p) for p in pool):
                pool = pool + [e]
        if more and draw(st.booleans()):
            where = [[m.canon(p) for p in pool].index(m.canon(e)) for e in more]
            first = [m.canon(p) for p in pool].index(m.canon(c))
            pair = ([first], where) if how == "split" else (where[:1], where[-1:] if how != "ends" else [first])
    n = len(pool)
    a, b = [draw(st.lists(st.integers(0, n - 1), max_size=4)) for _ in range(2)]
    if pair[0]:
        b = draw(st.permutations(a))[: len(a)]
    return {"d": d, "names": draw(m.names_for(d)), "pool": pool, "a": a + pair[0], "b": list(b) + pair[1],
            "perm": draw(st.booleans())}


def check_set(case):
    from ruleskit import RuleSet, RegressionRule

    def mk(i, flip):
        s = case["pool"][i]
        if flip:
            s = {k: v[::-1] for k, v in s.items()}
        return RegressionRule(m.make_condition(s, case["names"], sort=not flip))

    x = RuleSet([mk(i, False) for i in case["a"]])
    y = RuleSet([mk(i, case["perm"]) for i in case["b"]])
    want = set(case["a"]) == set(case["b"])
    need(bool(x == y) == want and bool(y == x) == want, lambda: f"rulesets {case['a']} == {case['b']} gives {x == y}")
    need(bool(x != y) == (not want), "rulesets !=")
    if want:
        need(hash(x) == hash(y), lambda: f"equal rulesets have different hashes ({case['a']}, {case['b']})")
    for z in (None, 1, "x", [], list(x)):
        need(not (x == z) and x != z, lambda: f"ruleset equals {z!r}")
    return ["nt"] if case["a"] != case["b"] and case["a"] and case["b"] else []


LAWS = [
    Law("pairs", strat, check, quick=4000,
        rule="the conditions differ, or are equal though not given in the same way",
        examples=[{"d": 1, "names": ["X_0"], "cond": {"f": [0], "lo": [-1], "hi": [3]},
                   "other": {"c": {"f": [0], "lo": [-2], "hi": [3]}, "names": ["X_0"], "pos": [0]}, "sort": True,
                   "sortby": "index", "np": False}]),
    Law("rulesets", set_strat, check_set, quick=800, rule="two non-empty rulesets built differently"),
]
