"""P13: AND, containment and correlation of fitted rules follow their activations."""
from hypothesis import strategies as st

from ..core import Law
from ..gen import need
from .. import model as m
from .p05 import snapshot

ASSUMPTIONS = ["correlation is compared when both predictions are non-zero numbers"]


@st.composite
def strat(draw, tier):
    d = draw(m.dims(3))
    kind = draw(st.sampled_from(["reg", "reg", "cls"]))
    t = draw(m.table(d, max_n=10, big=200))
    n = m.n_rows(t)
    if kind == "reg":
        y = draw(m.y_reg(n))
    else:
        y = draw(m.y_class(n))
    c1 = draw(m.cond_spec(d, wide=True))
    c2 = draw(m.cond_spec(d, wide=True))
    if draw(st.booleans()):
        # a box inside the first one, or the first one with another feature
        c2 = {k: list(v) for k, v in c1.items()}
        i = draw(st.integers(0, len(c2["f"]) - 1))
        c2["lo"][i] = draw(m.bound())
    return {"kind": kind, "names": draw(m.names_for(d)), "conds": [c1, c2], "table": t, "y": y,
            "how": draw(m.input_kind()), "storage": draw(m.storage()), "other_n": draw(st.integers(1, 12)),
            "later": draw(m.table(d, max_n=8)),
            "scale": draw(st.sampled_from([1, 1, 1, 1, 1e-200, 1e200])) if kind == "reg" else 1}


def check(case):
    from ruleskit import RegressionRule, ClassificationRule

    m.apply_storage(case["storage"])
    rws = m.rows(case["table"])
    y = m.expand_y(case["y"]) if case["kind"] == "reg" else m.expand_classes(case["y"])
    if case.get("scale", 1) != 1:  # the size of the target has no say in the correlation of the rules
        y = [v * case["scale"] for v in y]
    yy = m.make_y(y, "array")
    rules = []
    for c in case["conds"]:
        r = m.make_rule(case["kind"], c, case["names"])
        r.fit(y=yy, xs=m.make_xs(rws, case["names"], case["how"]))
        rules.append(r)
    r1, r2 = rules
    a1, a2 = m.act(case["conds"][0], rws), m.act(case["conds"][1], rws)
    before = [(snapshot(r.condition), list(r.activation), str(r.prediction), r.coverage) for r in rules]
    tags = []
    for x, z in ((r1, r2), (r2, r1)):
        both = x & z
        need(type(both) is type(x), lambda: f"AND of rules is a {type(both)}")
        want = [p & q for p, q in zip(a1, a2)]
        m.need_act(both.activation, want, "activation of the AND")
        need(m.close(both.coverage, sum(want) / len(want)), lambda: f"coverage of the AND {both.coverage}")
        need(both.condition == (x.condition & z.condition), lambda: f"condition of the AND: {both.condition}")
        m.need_act(both.evaluate_activation(m.make_xs(rws, case["names"], case["how"])).raw, want, "AND evaluated")
        if "later" in case:  # on rows that the parents were not fitted on
            lrows = m.rows(case["later"])
            lwant = [p & q for p, q in zip(*[m.act(c, lrows) for c in case["conds"]])]
            m.need_act(both.evaluate_activation(m.make_xs(lrows, case["names"], case["how"])).raw, lwant, "AND evaluated on other rows")
            if sum(lwant) and not sum(want):
                tags.append("met later only")
        fresh = (RegressionRule if case["kind"] == "reg" else ClassificationRule)(x.condition & z.condition)
        fresh.fit(y=yy, xs=m.make_xs(rws, case["names"], case["how"]))
        m.need_act(fresh.activation, want, "combined condition fitted")
        both.fit(y=yy)
        need(m.close(both.prediction, fresh.prediction) if not isinstance(fresh.prediction, str)
             else both.prediction == fresh.prediction,
             lambda: f"prediction of the AND {both.prediction}, of the combined condition {fresh.prediction}")
    need(before == [(snapshot(r.condition), list(r.activation), str(r.prediction), r.coverage) for r in rules],
         "the rules were changed")
    inside = {(0, 0): True, (1, 1): True, (0, 1): all(q <= p for p, q in zip(a1, a2)),
              (1, 0): all(p <= q for p, q in zip(a1, a2))}
    for (i, j), want in inside.items():
        got = rules[j] in rules[i]
        need(bool(got) == want, lambda: f"rule of {[a1, a2][j]} in rule of {[a1, a2][i]} gives {got}")
    if case["kind"] == "reg":
        ps = [r.prediction for r in rules]
        if all(not m.isnan(p) and p != 0 for p in ps):
            same = sum(p == q for p, q in zip(a1, a2)) / len(a1)
            for i in (0, 1):
                for j in (0, 1):
                    want = (same if i != j else 1.0) * (1 if (ps[i] > 0) == (ps[j] > 0) else -1)
                    got = rules[i].get_correlation(rules[j])
                    need(m.close(got, want), lambda: f"correlation {got}, expected {want} (predictions {ps})")
            other = m.make_rule("reg", case["conds"][1], case["names"])
            n = case["other_n"]
            if n != len(rws):
                import numpy as np
                other.fit(y=np.arange(1.0, n + 1), xs=np.zeros((n, len(case["names"]))))
                if not m.isnan(other.prediction):
                    try:
                        got = r1.get_correlation(other)
                    except ValueError:
                        pass
                    else:
                        need(False, lambda: f"correlation of vectors of lengths {len(rws)} and {n}: {got}")
    # nothing is known to be inside of a rule that was never fitted, nor that rule inside of another
    fresh = [m.make_rule(case["kind"], c, case["names"]) for c in case["conds"]]
    for x, z in ((r1, fresh[1]), (r2, fresh[0]), (r1, fresh[0]), (fresh[0], fresh[1])):
        need(not (x in z) and not (z in x), "a rule that was never fitted is said to be in another, or to contain it")
    # the combined rule and its parents are independent
    want = [p & q for p, q in zip(a1, a2)]
    for x, z in ((r1, r2), (r2, r1), (r1, r1)):
        w = want if x is not z else a1
        both, other = x & z, x & z
        both.del_activation()
        for r, a, what in ((r1, a1, "a rule"), (r2, a2, "a rule"), (other, w, "another AND")):
            m.need_act(r.activation, a, f"activation of {what} after that of an AND was released")
        other.calc_activation(m.make_xs([r_ for r_ in rws][::-1], case["names"], case["how"]))
        m.need_act(other.activation, w[::-1], "activation of an AND on the rows in reverse order")
        for r, a in ((r1, a1), (r2, a2)):
            m.need_act(r.activation, a, "activation of a rule after that of an AND was computed again")
    both = r1 & r2
    r1.del_activation()
    r2.del_activation()
    m.need_act(both.activation, want, "activation of an AND after those of the rules were released")
    out = sorted(set(tags))
    if m.nontrivial_act(a1) and m.nontrivial_act(a2) and a1 != a2:
        out.append("nt")
    if sum(a1) and sum(a2) and (inside[(0, 1)] != inside[(1, 0)]):
        out.append("strict containment")
    return out


LAWS = [Law("pairs", strat, check, quick=2000, rule="the two rules have different, partly activated vectors")]
