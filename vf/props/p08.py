"""P08: bounds stay attached to their features through sorting and updates."""
from hypothesis import strategies as st

from ..core import Law
from ..gen import need, look, looked_at
from .. import model as m

ASSUMPTIONS = ["bounds are numbers other than NaN", "the same number of features all along"]

NAMEPOOL = ["b", "a", "X_1", "X_0", "X_10", "c d", "é", "A", "with 'quote'", "[0]"]


@st.composite
def strat(draw, tier):
    k = draw(st.integers(1, 5))
    names = draw(st.permutations(NAMEPOOL))[:k]
    idx = draw(st.lists(st.integers(0, 12), min_size=k, max_size=k, unique=True))
    lo = [draw(m.bound()) for _ in range(k)]
    hi = [draw(m.bound()) for _ in range(k)]
    for i in range(k):
        if draw(st.integers(0, 4)) and m.num(lo[i]) > m.num(hi[i]):
            lo[i], hi[i] = hi[i], lo[i]
    ops = []
    for _ in range(draw(st.integers(1, 6))):
        kind = draw(st.sampled_from(["sort_index", "sort_name", "bmins", "bmaxs", "features_names", "features_indexes",
                                     "bmins", "bmaxs", "wrong_length", "duplicated"]))
        if kind in ("sort_index", "sort_name"):
            ops.append([kind, None, None])
            continue
        how = draw(st.sampled_from(["list", "text"])) + draw(st.sampled_from(["", "_rule"]))
        if kind in ("bmins", "bmaxs"):
            v = [draw(st.sampled_from(m.GRID + [1e300, 2.5, -7])) for _ in range(k)]
        elif kind == "features_names":
            v = list(draw(st.permutations(NAMEPOOL))[:k])
        elif kind == "features_indexes":
            v = draw(st.lists(st.integers(0, 12), min_size=k, max_size=k, unique=True))
        elif kind == "wrong_length":
            attr = draw(st.sampled_from(["bmins", "bmaxs", "features_names", "features_indexes"]))
            size = draw(st.sampled_from([k + 1, k - 1 if k > 1 else k + 2]))
            v = [attr, [f"n{i}" if attr == "features_names" else i for i in range(size)]]
        else:
            attr = draw(st.sampled_from(["features_names", "features_indexes"]))
            v = [attr, (["n"] if attr == "features_names" else [1]) * k]
        ops.append([kind, v, how])
    return {"names": list(names), "idx": idx, "lo": lo, "hi": hi, "look": draw(look()), "ops": ops, "sort": draw(st.booleans()),
            "sortby": draw(st.sampled_from(["index", "name"])), "default_names": draw(st.integers(0, 5)) == 0,
            "activation": draw(st.booleans())}


def check(case):
    import numpy as np
    from ruleskit import HyperrectangleCondition, RegressionRule, Activation
    from ruleskit.condition import DuplicatedFeatures

    HyperrectangleCondition.SORT_ACCORDING_TO = case["sortby"]
    names = None if case["default_names"] else list(case["names"])
    given = [list(case["idx"]), m.nums(case["lo"]), m.nums(case["hi"]), names]
    c = HyperrectangleCondition(given[0], given[1], given[2], given[3], sort=case["sort"])
    r = RegressionRule(c, Activation(np.array([0, 1, 1])) if case["activation"] else None)
    names = names if names is not None else [f"X_{i}" for i in case["idx"]]
    # model: list of (name, index, lo, hi), in order
    model = list(zip(names, case["idx"], m.nums(case["lo"]), m.nums(case["hi"])))

    def order(by):
        model.sort(key=(lambda t: t[1]) if by == "index" else (lambda t: t[0]))

    if case["sort"]:
        order(case["sortby"])

    now = [0]

    def verify(what):
        now[0] += 1
        if not looked_at(case["look"], now[0] - 1, len(case["ops"]) + 1):
            return
        got = list(zip(c.features_names, c.features_indexes, c.bmins, c.bmaxs))
        need(got == model and len(c) == len(model), lambda: f"{what}: got {got}, expected {model}")
        need([c[i] for i in range(len(c))] == model, lambda: f"{what}: items {[c[i] for i in range(len(c))]}")
        need(bool(c.impossible) == any(t[2] > t[3] for t in model), lambda: f"{what}: impossible {c.impossible} {model}")
        via = list(zip(r.features_names, r.features_indexes, r.bmins, r.bmaxs))
        need(via == model and len(r) == len(model) and bool(r.impossible) == bool(c.impossible),
             lambda: f"{what}: through the rule {via}")
        n = max(t[1] for t in model) + 1
        if not c.impossible:
            row = np.full((3, n), 1e301)
            for t in model:
                row[0, t[1]] = max(min(t[2], 1e308), -1e308)
                row[1, t[1]] = max(min(t[3], 1e308), -1e308)
                row[2, t[1]] = np.nan
            want = [1, 1, 0]
            for t in model:
                if np.isinf(t[2]) and t[2] == t[3]:
                    want = [0, 0, 0]
            m.need_act(c.evaluate(row), want, f"{what}: evaluate on its own bounds")

    verify("construction")
    out = []
    for kind, v, how in case["ops"]:
        if kind.startswith("sort_"):
            HyperrectangleCondition.SORT_ACCORDING_TO = kind[5:]
            c.sort()
            if len(model) > 1:
                before = list(model)
                order(kind[5:])
                if before != model:
                    out.append("nt")
            verify(kind)
            continue
        target = r if how.endswith("_rule") else c
        if kind in ("wrong_length", "duplicated"):
            attr, val = v
            try:
                setattr(target, attr, str(val) if how.startswith("text") else val)
            except (IndexError, DuplicatedFeatures):
                verify(f"refused {attr}")
                out.append("refused")
            else:
                if kind == "duplicated" and len(val) == 1:
                    pos = {"features_names": 0, "features_indexes": 1}[attr]
                    model[:] = [tuple(val[0] if j == pos else x for j, x in enumerate(t)) for t in model]
                    verify(f"set {attr}")
                else:
                    need(False, lambda: f"{attr} = {val} accepted on a condition of {len(model)} features")
            continue
        setattr(target, kind, str(v) if how.startswith("text") else list(v))
        pos = {"features_names": 0, "features_indexes": 1, "bmins": 2, "bmaxs": 3}[kind]
        model[:] = [tuple(v[i] if j == pos else x for j, x in enumerate(t)) for i, t in enumerate(model)]
        verify(f"set {kind} ({how})")
        if len(model) > 1:
            out.append("nt")
    return out


@st.composite
def bad_strat(draw, tier):
    k = draw(st.integers(1, 4))
    return {"k": k, "what": draw(st.sampled_from([
        "dup_names", "dup_indexes", "len_bmins", "len_bmaxs", "len_names", "type_bmins", "type_bmaxs", "type_names",
        "type_indexes", "nothing", "no_bmins", "no_bmaxs"])),
        "at": draw(st.integers(0, k - 1)), "delta": draw(st.sampled_from([-1, 1]))}


def check_bad(case):
    from ruleskit import HyperrectangleCondition
    from ruleskit.condition import DuplicatedFeatures

    k, at, w = case["k"], case["at"], case["what"]
    a = {"features_indexes": list(range(k)), "bmins": [0] * k, "bmaxs": [1.5] * k, "features_names": [f"n{i}" for i in range(k)]}
    exc = None
    if w == "dup_names":
        if k == 1:
            return []
        a["features_names"][at] = a["features_names"][(at + 1) % k]
        exc = DuplicatedFeatures
    elif w == "dup_indexes":
        if k == 1:
            return []
        a["features_indexes"][at] = a["features_indexes"][(at + 1) % k]
        exc = DuplicatedFeatures
    elif w.startswith("len_"):
        key = {"bmins": "bmins", "bmaxs": "bmaxs", "names": "features_names"}[w[4:]]
        a[key] = a[key] + ["n"] if case["delta"] == 1 and key == "features_names" else (
            a[key] + [0] if case["delta"] == 1 else a[key][:-1])
        exc = ValueError
    elif w.startswith("type_"):
        key = {"bmins": "bmins", "bmaxs": "bmaxs", "names": "features_names", "indexes": "features_indexes"}[w[5:]]
        a[key][at] = {"bmins": "0", "bmaxs": None, "features_names": 3, "features_indexes": 1.5}[key]
        exc = TypeError
    elif w == "nothing":
        a["features_indexes"] = a["features_names"] = None
        exc = ValueError
    else:
        a[w[3:]] = None
        exc = ValueError
    try:
        c = HyperrectangleCondition(**a)
    except exc:
        return ["nt"]
    need(False, lambda: f"{w}: accepted {a}: {c}")


@st.composite
def empty_strat(draw, tier):
    k = draw(st.integers(1, 4))
    return {"k": k, "order": draw(st.permutations(["features_names", "features_indexes", "bmins", "bmaxs"])),
            "lo": [draw(m.bound()) for _ in range(k)], "hi": [draw(m.bound()) for _ in range(k)],
            "idx": draw(st.permutations(range(k)))}


def check_empty(case):
    from ruleskit import HyperrectangleCondition

    c = HyperrectangleCondition(empty=True)
    v = {"features_names": [f"n{i}" for i in range(case["k"])], "features_indexes": list(case["idx"]),
         "bmins": m.nums(case["lo"]), "bmaxs": m.nums(case["hi"])}
    for attr in case["order"]:
        setattr(c, attr, list(v[attr]))
    for attr in v:
        need(getattr(c, attr) == v[attr], lambda: f"{attr} is {getattr(c, attr)}, expected {v[attr]}")
    need(bool(c.impossible) == any(a > b for a, b in zip(v["bmins"], v["bmaxs"])), lambda: f"impossible is {c.impossible}")
    need(c == HyperrectangleCondition(v["features_indexes"], v["bmins"], v["bmaxs"], v["features_names"]), "equality")
    return ["nt"] if case["k"] > 1 else []


LAWS = [
    Law("history", strat, check, quick=2400,
        rule="a sort changes the order or a setter is applied, on a condition of several features"),
    Law("refused", bad_strat, check_bad, quick=300, rule="an invalid construction is attempted"),
    Law("filled", empty_strat, check_empty, quick=300, rule="several features"),
]
