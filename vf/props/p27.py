"""P27: rules that differ, however little, are never taken for one another; their text states them exactly."""
import math
import re

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from ..core import Law
from ..gen import need, scratch_file
from .. import model as m
from .p16 import expected as weighted_mean
from .p17 import expected as weighted_vote

ASSUMPTIONS = ["bounds are not NaN", "feature names hold no text that reads as part of a condition",
               "stacked weighted votes are not judged"]


# ------------------------------------------------------------------------------------------- text
@st.composite
def exact(draw):
    return draw(st.one_of(m.bound(), st.floats(allow_nan=False, allow_infinity=False, width=64), st.floats(-1, 1),
                          st.integers(-10 ** 6, 10 ** 6), st.sampled_from([0.1 + 0.2, 1 / 3, 2 / 3, 1e-17, 123456789.123456789, 5e-324])))


@st.composite
def text_strat(draw, tier):
    d = draw(m.dims(4))
    k = draw(st.integers(1, min(d, 4)))
    conds = []
    for _ in range(draw(st.integers(1, 13))):
        feats = list(draw(st.permutations(range(d))))[: draw(st.integers(1, k))]
        conds.append({"f": feats, "lo": [draw(exact()) for _ in feats], "hi": [draw(exact()) for _ in feats]})
    return {"names": draw(m.names_for(d)), "conds": conds, "nlines": draw(st.sampled_from([1, 2, 3, 5, 5, 6])),
            "sort": draw(st.booleans()), "kind": draw(st.sampled_from(["reg", "cls", "text"]))}


def check_text(case):
    from ruleskit import RuleSet

    names = case["names"]
    kind = "reg" if case["kind"] == "reg" else "cls"
    rules = [m.make_rule(kind, c, names, sort=case["sort"]) for c in case["conds"]]
    y = np.array([1.25, -0.1, 1 / 3]) if kind == "reg" else np.array([2, 1, 2]) if case["kind"] == "cls" else np.array(["b", "a a", "b"])
    xs = np.array([[0.5] * len(names), [-1.0] * len(names), [0.1 + 0.2] * len(names)])
    lines = []
    for r, spec in zip(rules, case["conds"]):
        c = r.condition
        want = {names[f]: (float(m.num(a)), float(m.num(b))) for f, a, b in zip(spec["f"], spec["lo"], spec["hi"])}
        parts = str(c).split(" AND ")
        got = {}
        for p in parts:
            mt = re.fullmatch(r"(.*) in \[([^,\]]*), ([^,\]]*)\]", p, flags=re.S)
            need(mt is not None, lambda: f"the text {str(c)!r} does not state a condition")
            got[mt.group(1)] = (float(mt.group(2)), float(mt.group(3)))
        need(len(parts) == len(want) and got == want, lambda: f"the text {str(c)!r} states {got}, the condition is {want}")
        need([p.split(" in [")[0] for p in parts] == list(c.features_names), lambda: f"order of the features in {str(c)!r}")
        need(str(r).startswith(f"If {c} Then "), lambda: f"text of an unfitted rule {str(r)!r}")
        r.fit(y=y, xs=xs)
        # a classification rule may show the probability of each class
        want_text = f"If {c} Then {r.prediction}." if kind == "reg" else str(r)
        need(str(r).startswith(f"If {c} Then "), lambda: f"text of a fitted rule {str(r)!r}")
        need(str(r) == want_text, lambda: f"text of the rule {str(r)!r}, expected {want_text!r}")
        lines.append(want_text)
    RuleSet.NLINES = case["nlines"]
    rs = RuleSet(rules)
    n = case["nlines"]
    want = lines if len(lines) < 2 * n else lines[:n] + ["..."] + lines[-n:]
    need(str(rs) == "\n".join(want), lambda: f"text of the ruleset:\n{rs}\nexpected:\n" + "\n".join(want))
    return ["nt"] * (len(rules) > 1) + (["cut"] if len(lines) >= 2 * n else [])


# ------------------------------------------------------------------------------------------- close rules
@st.composite
def near_strat(draw, tier):
    d = draw(st.integers(1, 3))
    base = draw(m.cond_spec(d, possible=True, wide=False))
    # finite bounds, so that there is something next to them
    for key, v in (("lo", -1.5), ("hi", 2.5)):
        base[key] = [b if not isinstance(b, str) and abs(b) < 1e6 else v for b in base[key]]
    if draw(st.integers(0, 3)) == 0:
        third = draw(st.sampled_from([1 / 3, 0.1 + 0.2, 1e-9, 12345.678901234567, -2 / 7]))
        base["lo"][0], base["hi"][0] = min(third, base["lo"][0]), max(third, base["hi"][0])
    steps = draw(st.lists(st.tuples(st.integers(0, len(base["f"]) - 1), st.sampled_from(["lo", "hi"]), st.sampled_from([1, -1, 2, -2]),
                                    st.sampled_from(["ulp", "ulp", "e-9", "e-6", "sign", "twin"])).map(list), min_size=1, max_size=4))
    kind = draw(st.sampled_from(["reg", "reg", "cls"]))
    n_extra = draw(st.integers(1, 5))
    return {"d": d, "names": draw(m.names_for(d)), "base": base, "steps": steps, "kind": kind,
            "classes": draw(st.sampled_from([[0, 1], ["a", "b"], [3, 1, 2]])),
            "extra": [[draw(m.cell()) for _ in range(d)] for _ in range(n_extra)],
            "yseed": draw(st.integers(0, 10 ** 6)), "stacked": draw(st.booleans()), "storage": draw(m.storage()),
            "how": draw(m.input_kind()), "how_y": draw(m.y_kind()),
            "wseed": draw(st.one_of(st.none(), st.integers(0, 1000)))}


def nudge(v, k, how):
    v = float(v)
    if how == "ulp":
        for _ in range(abs(k)):
            v = math.nextafter(v, math.inf if k > 0 else -math.inf)
        return v
    if how == "sign":
        return v + 1e-12 * k
    return v + k * float("1" + how)


def check_near(case):
    import random

    from ruleskit import RuleSet

    m.apply_storage(case["storage"])
    RuleSet.STACKED_FIT = case["stacked"]
    kind, names, base = case["kind"], case["names"], case["base"]
    pool = [base]
    for i, key, k, how in case["steps"]:
        # -1 and -2 have the same hash
        for v in ([-1.0, -2.0] if k > 0 else [-2, -1]) if how == "twin" else [None]:
            c = {q: list(pool[-1][q]) for q in ("f", "lo", "hi")}
            if how == "twin":
                if (key == "lo" and c["hi"][i] < -1) or (key == "hi" and c["lo"][i] > -2):
                    continue
                c[key][i] = v
            else:
                c[key][i] = nudge(c[key][i], k, how)
            if not any(m.canon(c) == m.canon(p) for p in pool):
                pool.append(c)
    # rows exactly at the bounds tell the rules apart
    rws = [m.nums(r) for r in case["extra"]]
    inside = [0.0] * case["d"]
    for f, a, b in zip(base["f"], base["lo"], base["hi"]):
        inside[f] = (float(a) + float(b)) / 2
    rws.append(list(inside))
    for c in pool:
        for f, a, b in zip(c["f"], c["lo"], c["hi"]):
            for v in (a, b):
                row = list(inside)
                row[f] = float(v)
                rws.append(row)
    rng = random.Random(case["yseed"])
    y = [rng.choice(case["classes"]) if kind == "cls" else rng.choice(m.YGRID) + 0.0 for _ in rws]
    acts = [m.act(c, rws) for c in pool]
    rules = [m.make_rule(kind, c, names) for c in pool]
    need(len(set(rules)) == len(rules) and len({str(r.condition) for r in rules}) == len(rules),
         lambda: f"rules that differ are taken for one another: {[str(r.condition) for r in rules]}")
    for i, r in enumerate(rules):
        for j, q in enumerate(rules):
            need((r == q) == (i == j) and (r.condition == q.condition) == (i == j), lambda: f"equality of {r} and {q}")
            need((RuleSet([r]) == RuleSet([q])) == (i == j), lambda: f"equality of the rulesets of {r} and {q}")
    rs = RuleSet(list(rules), stack_activation=case["stacked"])
    xs = m.make_xs(rws, names, case["how"])
    yy = m.make_y(y, case["how_y"])
    rs.fit(y=yy, xs=xs)
    need([id(r) for r in rs] == [id(r) for r in rules], "fitting changed the rules")
    preds = []
    for i, (r, a) in enumerate(zip(rules, acts)):
        m.need_act(r.activation, a, f"activation of rule {i} ({r.condition})")
        if kind == "reg":
            want = m.reg_stats(a, y)
            m.need_stats(r, {k: want[k] for k in ("prediction", "std", "coverage")}, f"rule {i} ({r.condition})", scale=100)
            preds.append(want["prediction"])
        else:
            want = m.vote(m.class_counts(a, y))
            need(m.same_class(r.prediction, want), lambda: f"rule {i} ({r.condition}) predicts {r.prediction!r}, expected {want!r}")
            preds.append(want)
    if case["stacked"]:
        df = rs.stacked_activations
        need(df.shape[1] == len(rules), lambda: f"{df.shape[1]} stacked columns for {len(rules)} rules")
        for i in range(len(rules)):
            m.need_act(df.iloc[:, i].values, acts[i], f"stacked activation of rule {i}")
    df = rs.evaluate_stacked_activations(xs)
    need(df.shape == (len(rws), len(rules)), lambda: f"stacked activations of shape {df.shape} for {len(rules)} rules, {len(rws)} rows")
    for i in range(len(rules)):
        m.need_act(df.iloc[:, i].values, acts[i], f"stacked activation of rule {i} on given rows")
    rows_back = xs[::-1] if isinstance(xs, np.ndarray) else xs.iloc[::-1]
    if kind == "cls" and all(m.isnan(p) for p in preds):
        return ["refused"]  # there is nothing to evaluate
    rs.eval(y=yy[::-1] if isinstance(yy, np.ndarray) else yy.iloc[::-1], xs=rows_back, keep_new_activations=True)
    for i, (r, a) in enumerate(zip(rules, acts)):
        m.need_act(r.activation, a[::-1], f"activation of rule {i} ({r.condition}) on other rows")
        if kind == "reg":
            w = m.reg_criterion([preds[i] if v else m.NAN for v in a], y, "mse_norm")
            need(m.close(r.criterion, w, rtol=1e-6, atol=1e-4), lambda: f"criterion of rule {i} ({r.condition}) is {r.criterion}, expected {w}")
        need(r in rs, lambda: f"{r} is not in its ruleset")
    rs.calc_activation(xs)
    one = RuleSet([rules[0]])
    for i, r in enumerate(rules):
        need((r in one) == (i == 0), lambda: f"{r} in {one}")
    need(len(one + RuleSet(rules[-1:])) == len({0, len(rules) - 1}), lambda: f"{one} + {rules[-1]}")
    weights, wl = None, [1.0] * len(pool)
    if case["wseed"] is not None and not (case["stacked"] and kind == "cls"):
        wr = random.Random(case["wseed"])
        wl = [wr.choice([0.5, 1.0, 2.0, 3.5, 7.0, 0.0]) for _ in pool]
        weights = pd.Series({str(r.condition): w for r, w in zip(rules, wl)})
    want = (weighted_mean if kind == "reg" else weighted_vote)(acts, preds, wl)
    for x in (None, xs):
        try:
            got = list(rs.predict(x, weights=weights))
        except ValueError:
            need(all(m.isnan(v) for v in want), lambda: f"refused to predict, expected {want}")
            continue
        eq = (lambda g, v: m.close(g, v, rtol=1e-7, atol=1e-6)) if kind == "reg" else \
            (lambda g, v: m.same_class(m.NAN if isinstance(g, str) and g == "nan" else g, v))
        need(m.same_vector(got, want, eq), lambda: f"predicts {got}, expected {want} (predictions {preds}, weights {wl})")
    p = scratch_file("near.csv")
    rs.save(p)
    back = RuleSet()
    back.load(p)
    need(len(back) == len(rules), lambda: f"{len(back)} rules loaded out of {len(rules)}")
    for r, q in zip(rules, back):
        need(r == q and [float(v) for v in q.bmins] == [float(v) for v in r.bmins] and [float(v) for v in q.bmaxs] == [float(v) for v in r.bmaxs],
             lambda: f"{r.condition} was loaded as {q.condition}")
    out = ["stacked" if case["stacked"] else "unstacked"]
    if len(pool) > 1 and len({tuple(a) for a in acts}) > 1:
        out.append("nt")
    return out


LAWS = [
    Law("near", near_strat, check_near, quick=1600,
        rule="at least two rules whose bounds differ by very little are told apart by a row exactly at a bound"),
    Law("text", text_strat, check_text, quick=1200, rule="several rules"),
]
