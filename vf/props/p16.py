"""P16: a regression ruleset predicts the weighted mean of its active rules."""
import math

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from ..core import Law
from ..gen import need
from .. import model as m

ASSUMPTIONS = ["rows where positive and negative weights nearly cancel out are not judged", "rules of a ruleset have different conditions",
               "with weights, a ruleset none of whose weighted rules is active anywhere may refuse to predict (ValueError)"]

WEIGHTS = [0, 0.5, 1, 2, 3, 0.1, 1e6, 1e-6, "nan"]


@st.composite
def strat(draw, tier):
    d = draw(m.dims(3))
    pool = draw(m.conds(d, 1, 6, many=True))
    sets = []
    for _ in range(2):
        t = draw(m.table(d, max_n=10, big=100))
        n = m.n_rows(t)
        y = draw(st.one_of(m.y_reg(n), st.lists(st.sampled_from([-2, -1, 1, 2, 0]), min_size=n, max_size=n)))
        sets.append({"table": t, "y": y, "how": draw(m.input_kind()), "how_y": draw(m.y_kind())})
    w = draw(st.one_of(st.none(), st.sampled_from(["coverage", "criterion", "nones", "train_set_size"]),
                       st.lists(st.one_of(st.sampled_from(WEIGHTS), st.just("absent")), min_size=len(pool), max_size=len(pool)),
                       st.lists(st.integers(1, 5), min_size=len(pool), max_size=len(pool)),
                       st.lists(st.sampled_from([-3, -1, -0.5, 2, 5, 1.5, 7.25]), min_size=len(pool), max_size=len(pool))))
    return {"names": draw(m.names_for(d)), "pool": pool, "sets": sets, "weights": w,
            "scale": draw(st.sampled_from([1, 1, 1, 1, 1e-12, 1e-9, 1e-3, 1e9, 1e12])), "extra_weight": draw(st.booleans()), "shuffle": draw(st.booleans()), "stacked": draw(st.booleans()),
            "storage": draw(m.storage()), "reuse": draw(st.booleans()), "order": draw(st.lists(st.integers(0, 1), min_size=1, max_size=3))}


def expected(acts, preds, weights):
    """Weighted mean of the active rules, per row; "?" where their weights nearly cancel out."""
    out = []
    for k in range(len(acts[0])):
        part = [(p, w) for a, p, w in zip(acts, preds, weights) if a[k] and not m.isnan(p) and w and not m.isnan(w)]
        tot = math.fsum(w for _, w in part)
        if part and abs(tot) < 1e-3 * math.fsum(abs(w) for _, w in part):
            out.append("?")
            continue
        out.append(math.fsum(p * w for p, w in part) / tot if part else math.nan)
    return out


def state(rs):
    return ([(list(r.activation), str(r.prediction), r.coverage) for r in rs], list(rs.activation),
            None if rs.stacked_activations is None else rs.stacked_activations.values.tolist())


def check(case):
    from ruleskit import RuleSet

    m.apply_storage(case["storage"])
    RuleSet.STACKED_FIT = case["stacked"]
    names, pool = case["names"], case["pool"]
    data = [{"rows": m.rows(s["table"]), "y": m.expand_y(s["y"])} for s in case["sets"]]
    reuse = m.Reuse(case.get("reuse", False))
    if reuse.on:  # data sets of the same shape, put in turn in the same objects
        data[1] = {"rows": m.resized(data[1]["rows"], len(data[0]["rows"])), "y": None}
    acts = [[m.act(c, dd["rows"]) for c in pool] for dd in data]
    rs = RuleSet([m.make_rule("reg", c, names) for c in pool], stack_activation=case["stacked"])
    s0 = case["sets"][0]
    rs.fit(y=m.make_y(data[0]["y"], s0["how_y"]), xs=reuse("xs", m.make_xs(data[0]["rows"], names, s0["how"])))
    preds = [m.reg_stats(a, data[0]["y"])["prediction"] for a in acts[0]]
    for r, p in zip(rs, preds):
        need(m.close(r.prediction, p, rtol=1e-7, atol=1e-7), lambda: f"prediction of a rule {r.prediction}, expected {p}")
    w, weights = case["weights"], None
    if isinstance(w, str):
        if w == "criterion":
            rs.eval(y=m.make_y(data[0]["y"], "array"), criterion_method="mse")
        weights = w
        wl = [getattr(r, w) for r in rs]
    elif w is not None:
        if case["scale"] != 1:
            w = [x if isinstance(x, str) else x * case["scale"] for x in w]
        ser = {str(r.condition): m.num(x) for r, x in zip(rs, w) if x != "absent"}
        if case["extra_weight"]:
            ser["no such rule"] = 3.0
        items = list(ser.items())
        if case["shuffle"]:
            items = items[::-1]
        weights = pd.Series(dict(items), dtype=float if any(isinstance(x, float) for _, x in items) or not items else int)
        wl = [0 if x == "absent" else m.num(x) for x in w]
    else:
        wl = [1] * len(pool)
    before = state(rs)
    w0 = weights.copy() if isinstance(weights, pd.Series) else None
    out = []
    order = case["order"] + [case["order"][0]] + ([1, "0 again"] if reuse.on else [])
    for i in order:
        if i == "0 again":  # the rows of the fit, in the object that held the others
            i, xs = 0, reuse("xs", m.make_xs(data[0]["rows"], names, s0["how"]))
        else:
            xs = None if i == 0 else reuse("xs", m.make_xs(data[1]["rows"], names, (s0 if reuse.on else case["sets"][1])["how"]))
        want = expected(acts[i], preds, wl)
        try:
            got = rs.predict(xs, weights=weights) if weights is not None else rs.predict(xs)
        except ValueError:
            need(weights is not None and all(v == "?" or m.isnan(v) for v in want),
                 lambda: f"refused to predict, expected {want}")
            out.append("refused")
            continue
        need(isinstance(got, pd.Series), lambda: f"predict returned {type(got)}")
        scale = max([1.0] + [abs(p) for p in preds if not m.isnan(p)])
        need(m.same_vector(got, want, lambda g, v: v == "?" or m.close(g, v, rtol=1e-7, atol=1e-7 * scale)),
             lambda: f"predicts {list(got)}, expected {want} (predictions {preds}, weights {wl})")
        need(list(got.index) == list(range(len(want))), lambda: f"rows of the prediction numbered {list(got.index)}")
        if any(sum(1 for a, p in zip(acts[i], preds) if a[k] and not m.isnan(p)) > 1 for k in range(len(want))):
            out.append("nt")
        if any(v == 0 for v in want):
            out.append("null mean")
    need(state(rs) == before, lambda: f"predict changed the ruleset: {before} -> {state(rs)}")
    need(w0 is None or weights.equals(w0), "predict changed the weights")
    return out


@st.composite
def many_strat(draw, tier):
    return {"n_rules": draw(st.sampled_from([40, 255, 256, 257, 300, 520])), "stacked": draw(st.booleans()),
            "weight": draw(st.sampled_from([None, 1, 2, 300, 0.5])), "shift": draw(st.sampled_from([0, 1, 100, -3])),
            "local": draw(st.booleans())}


def check_many(case):
    from ruleskit import RuleSet, RegressionRule

    RuleSet.STACKED_FIT = case["stacked"]
    RegressionRule.LOCAL_ACTIVATION = case["local"]
    n = case["n_rules"]
    pool = [{"f": [0], "lo": [-i - 1], "hi": [2.5 if i % 3 else 1.5]} for i in range(n)]
    rws = [[0.0], [1.0], [2.0], [-50.5], [7.0]]
    y = [3.0 + case["shift"], -4.0 + case["shift"], 0.5, 8.0, 1.0]
    acts = [m.act(c, rws) for c in pool]
    rs = RuleSet([m.make_rule("reg", c, ["X_0"]) for c in pool], stack_activation=case["stacked"])
    rs.fit(y=np.array(y), xs=np.array(rws))
    preds = [m.reg_stats(a, y)["prediction"] for a in acts]
    weights = None if case["weight"] is None else pd.Series({str(r.condition): case["weight"] for r in rs})
    want = expected(acts, preds, [1] * n)
    for xs in (None, np.array(rws)):
        got = rs.predict(xs, weights=weights)
        need(m.same_vector(got, want, lambda g, v: m.close(g, v, rtol=1e-7, atol=1e-6)),
             lambda: f"{n} rules predict {list(got)}, expected {want}")
    return ["nt"]


LAWS = [
    Law("predict", strat, check, quick=1600, rule="several rules are active on a row"),
    Law("many", many_strat, check_many, quick=32, thorough=200, rule="always (tens to hundreds of rules active together)"),
]
