"""P28: a global map of feature positions governs the rulesets built under it."""
import random

import numpy as np
from hypothesis import strategies as st

from ..core import Law
from ..gen import need
from .. import model as m

ASSUMPTIONS = ["every feature of the rules is in the map, at a position of its own", "rules of a ruleset have different conditions"]


@st.composite
def strat(draw, tier):
    d = draw(m.dims(4))
    width = d + draw(st.integers(0, 3))
    pos = list(draw(st.permutations(range(width))))[:d]
    t = draw(m.table(d, min_n=2, max_n=8, big=40))
    return {"names": draw(m.names_for(d)), "pos": pos, "width": width, "pool": draw(m.conds(d, 1, 4, many=True)), "table": t,
            "y": draw(m.y_reg(m.n_rows(t))), "given": draw(st.sampled_from(["none", "default", "other"])),
            "sort": draw(st.booleans()), "storage": draw(m.storage()), "stacked": draw(st.booleans()),
            "stack": draw(st.booleans()), "extra_names": draw(st.booleans()), "filler": draw(st.sampled_from(["nan", 0, 7.5])),
            "then": draw(st.lists(st.sampled_from(["slice", "add", "rules", "append", "reverse", "and"]), max_size=2)), "map": draw(st.sampled_from([True, True, True, False]))}


def check(case):
    from ruleskit import HyperrectangleCondition, RegressionRule, RuleSet

    m.apply_storage(case["storage"])
    RuleSet.STACKED_FIT = case["stacked"]
    names, pool = case["names"], case["pool"]
    d = len(names)
    mapping = {n: p for n, p in zip(names, case["pos"])}
    if case["map"]:
        full = dict(mapping)
        if case["extra_names"]:
            full.update({"unused": case["width"] + 1, "zzz": case["width"] + 5})
        RuleSet.all_features_indexes = full
    rows = m.rows(case["table"])
    y = m.expand_y(case["y"])

    def rule(c):
        nm = [names[f] for f in c["f"]]
        kw = {}
        if not case["map"]:
            kw["features_indexes"] = [mapping[n] for n in nm]
        elif case["given"] == "default":
            kw["features_indexes"] = list(c["f"])
        elif case["given"] == "other":
            kw["features_indexes"] = [40 - f for f in c["f"]]
        return RegressionRule(HyperrectangleCondition(
            bmins=m.nums(c["lo"]), bmaxs=m.nums(c["hi"]), features_names=nm, sort=case["sort"], **kw))

    rules = [rule(c) for c in pool]
    rs = RuleSet(rules, stack_activation=case["stack"])
    specs = list(pool)

    def verify(what):
        for r, c in zip(rs, specs):
            want = {names[f]: (mapping[names[f]], float(m.num(a)), float(m.num(b))) for f, a, b in zip(c["f"], c["lo"], c["hi"])}
            got = {n: (p, float(a), float(b)) for n, p, a, b in
                   zip(r.features_names, r.features_indexes, r.bmins, r.bmaxs)}
            need(got == want, lambda: f"{what}: features, positions and bounds {got}, expected {want}")
        used = {names[f] for c in specs for f in c["f"]}
        need(set(rs.features_names) == used and len(rs.features_names) == len(used), lambda: f"{what}: features {rs.features_names}, expected {used}")
        pos = sorted(mapping[n] for n in used)
        need(sorted(rs.features_indexes) == pos, lambda: f"{what}: positions {rs.features_indexes} of {rs.features_names}, expected {pos}")

    verify("built")
    wide = np.full((len(rows), case["width"]), float(case["filler"]))
    for j, p in enumerate(case["pos"]):
        wide[:, p] = [r[j] for r in rows]
    table = m.as_table(rows, names)
    out = ["map" if case["map"] else "no map"]
    for op in ["look"] + case["then"]:
        if op == "slice" and len(rs) > 1:
            rs = rs[1:]
            specs = specs[1:]
        elif op == "add":
            other = RuleSet([rule(pool[0])], stack_activation=case["stack"])
            rs = rs + other
            specs = specs if any(m.canon(pool[0]) == m.canon(c) for c in specs) else specs + [pool[0]]
            # the union comes in any order
            order = {m.canon(c): c for c in specs}
            specs = [order[m.canon({"f": [names.index(n) for n in r.features_names], "lo": list(r.bmins), "hi": list(r.bmaxs)})] for r in rs]
        elif op == "rules":
            rs.rules = list(rs.rules)
        elif op == "reverse":
            rs.rules = list(rs.rules)[::-1]
            specs = specs[::-1]
        elif op == "append" and case["map"]:
            if not any(m.canon(pool[0]) == m.canon(c) for c in specs):
                rs.append(RuleSet([rule(pool[0])])[0])
                specs = specs + [pool[0]]
        elif op == "and" and len(rs) > 1:
            both = rs[0].condition & rs[1].condition
            got = [int(v) for v in both.evaluate(wide)]
            want = [p & q for p, q in zip(m.act(specs[0], rows), m.act(specs[1], rows))]
            need(got == want, lambda: f"AND of two rules of the ruleset on an array: {got}, expected {want}")
        out.append(op)
        verify(op)
        acts = [m.act(c, rows) for c in specs]
        for r, a in zip(rs, acts):
            m.need_act(r.evaluate_activation(wide).raw, a, f"{op}: {r.condition} on an array")
            m.need_act(r.evaluate_activation(table).raw, a, f"{op}: {r.condition} on a table")
        rs.fit(y=np.array(y), xs=wide)
        for r, a in zip(rs, acts):
            m.need_act(r.activation, a, f"{op}: activation of {r.condition} after a fit on an array")
            want = m.reg_stats(a, y)
            m.need_stats(r, {k: want[k] for k in ("prediction", "coverage")}, f"{op}: {r.condition}", scale=1000)
        p, q = list(rs.predict(wide)), list(rs.predict(table))
        need(m.same_vector(p, q), lambda: f"{op}: predicts {p} on an array and {q} on a table")
    if case["map"] and case["pos"] != list(range(d)) and any(m.nontrivial_act(m.act(c, rows)) for c in pool):
        out.append("nt")
    return out


LAWS = [Law("map", strat, check, quick=1200, rule="the map moves some feature, and some rule is active on some rows only")]
