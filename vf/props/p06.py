"""P06: AND of two conditions is met exactly where both are; algebraic laws; refusals."""
from hypothesis import strategies as st

from ..core import Law
from ..gen import need
from .. import model as m
from .p05 import snapshot

ASSUMPTIONS = ["bounds are not NaN and given as lists", "in the laws of AND a feature has one position"]


@st.composite
def strat(draw, tier):
    d = draw(m.dims(4))
    return {"d": d, "names": draw(m.names_for(d)), "conds": [draw(m.cond_spec(d, max_f=4)) for _ in range(3)],
            "table": draw(m.table(d, big=60)), "sortby": draw(st.sampled_from(["index", "name"])),
            "sort": [draw(st.booleans()) for _ in range(3)],
            "pos": draw(st.one_of(st.just(None), st.permutations(range(d)).map(list),
                                  st.permutations(range(d)).map(lambda p: [2 * i + 1 for i in p])))}


def bounds(spec, names):
    return {names[f]: (m.num(a), m.num(b)) for f, a, b in zip(spec["f"], spec["lo"], spec["hi"])}


def meet(x, y):
    out = dict(x)
    for f, (a, b) in y.items():
        out[f] = (max(out[f][0], a), min(out[f][1], b)) if f in out else (a, b)
    return out


def check(case):
    from ruleskit import HyperrectangleCondition

    HyperrectangleCondition.SORT_ACCORDING_TO = case["sortby"]
    names, rws, pos = case["names"], m.rows(case["table"]), case["pos"]
    cs = [m.make_condition(s, names, sort=k, positions=pos) for s, k in zip(case["conds"], case["sort"])]
    before = [snapshot(c) for c in cs]
    bs = [bounds(s, names) for s in case["conds"]]
    p = pos if pos is not None else list(range(len(names)))
    posof = {n: p[i] for i, n in enumerate(names)}

    def verify(c, b, what):
        got = {n: (lo, hi) for n, lo, hi in zip(c.features_names, c.bmins, c.bmaxs)}
        need(got == b and len(c.features_names) == len(b), lambda: f"{what}: got {got}, expected {b}")
        need({n: i for n, i in zip(c.features_names, c.features_indexes)} == {n: posof[n] for n in b},
             lambda: f"{what}: positions {c.features_indexes} for {c.features_names}")
        need(bool(c.impossible) == any(x > y for x, y in b.values()), lambda: f"{what}: impossible is {c.impossible}, {b}")
        df = m.as_table(rws, names)
        want = [1 if all(abs(r[names.index(f)]) != float("inf") and x <= r[names.index(f)] <= y
                         for f, (x, y) in b.items()) else 0 for r in rws]
        m.need_act(c.evaluate(df), want, f"{what}: evaluate")
        if pos is None:
            m.need_act(c.evaluate(m.as_array(rws)), want, f"{what}: evaluate on array")
        return want

    a, b, c = cs
    ab = a & b
    w = verify(ab, meet(bs[0], bs[1]), "a & b")
    need(w == [x & y for x, y in zip(m.act(case["conds"][0], rws), m.act(case["conds"][1], rws))], "oracle")
    ba = b & a
    verify(ba, meet(bs[1], bs[0]), "b & a")
    need(ab == ba and hash(ab) == hash(ba), lambda: f"not commutative: {ab} / {ba}")
    left, right = (a & b) & c, a & (b & c)
    verify(left, meet(meet(bs[0], bs[1]), bs[2]), "(a & b) & c")
    verify(right, meet(bs[0], meet(bs[1], bs[2])), "a & (b & c)")
    need(left == right, lambda: f"not associative: {left} / {right}")
    for x in cs:
        need((x & x) == x, lambda: f"not idempotent: {x & x} / {x}")
    need([snapshot(x) for x in cs] == before, lambda: f"operands changed: {before} -> {[snapshot(x) for x in cs]}")
    common = set(bs[0]) & set(bs[1])
    out = []
    if common and not ab.impossible and len(bs[0]) + len(bs[1]) > 2:
        out.append("nt")
    if common and ab.impossible and not (a.impossible or b.impossible):
        out += ["nt", "empty intersection"]
    if m.nontrivial_act(w):
        out.append("met somewhere")
    # changing the result must not change the operands
    ab.bmins = [-100] * len(ab)
    ab.bmaxs = [-50] * len(ab)
    need([snapshot(x) for x in cs] == before, "changing the result changed an operand")
    return out


@st.composite
def refuse_strat(draw, tier):
    d = draw(st.integers(2, 4))
    names = draw(m.names_for(d))
    s1, s2 = draw(m.cond_spec(d)), draw(m.cond_spec(d))
    pos2 = draw(st.permutations(range(d)).map(list))
    return {"names": names, "c": [s1, s2], "pos2": pos2}


def check_refused(case):
    names = case["names"]
    s1, s2 = case["c"]
    a = m.make_condition(s1, names)
    b = m.make_condition(s2, names, positions=case["pos2"])
    pa = {names[f]: f for f in s1["f"]}
    pb = {names[f]: case["pos2"][f] for f in s2["f"]}
    conflict = any(n in pb and pb[n] != i for n, i in pa.items()) or any(
        i == j and n != q for n, i in pa.items() for q, j in pb.items())
    before = snapshot(a), snapshot(b)
    for x, y in ((a, b), (b, a)):
        try:
            r = x & y
        except IndexError:
            need(conflict, lambda: f"{x} & {y} refused ({pa}, {pb})")
            continue
        need(not conflict, lambda: f"{x} & {y} accepted with positions {pa} and {pb}: {snapshot(r)}")
    need((snapshot(a), snapshot(b)) == before, "operands changed")
    return ["nt"] if conflict else []


LAWS = [
    Law("and", strat, check, quick=2400,
        rule="the conditions share a feature and the intersection is either not empty (with some other feature) or "
             "newly empty"),
    Law("refused", refuse_strat, check_refused, quick=800, rule="positions conflict"),
]
