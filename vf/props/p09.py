"""P09: fitting a regression rule computes the statistics of its activated points."""
import math

import numpy as np
from hypothesis import strategies as st

from ..core import Law
from ..gen import need
from .. import model as m

ASSUMPTIONS = ["the z-score is not compared when the targets are constant (up to rounding)",
               "the deviation is not compared when only one activated target of several is known"]


@st.composite
def dataset(draw, d, big):
    t = draw(m.table(d, big=big))
    n = m.n_rows(t)
    return {"table": t, "y": draw(m.y_reg(n, missing=draw(st.sampled_from([False, False, True])))),
            "how": draw(m.input_kind()), "how_y": draw(m.y_kind())}


@st.composite
def strat(draw, tier):
    d = draw(m.dims(3))
    return {"names": draw(m.names_for(d)), "cond": draw(m.cond_spec(d, wide=True)),
            "data": [draw(dataset(d, 300 if tier == "quick" else 3000)) for _ in range(draw(st.integers(1, 2)))],
            "horizon": draw(st.sampled_from([None, 1, 2, 5, 20, 0.25, 0.5, 365])), "storage": draw(m.storage()),
            "from_activation": draw(st.integers(0, 4)) == 0, "sub": draw(st.booleans()),
            "scale": draw(st.sampled_from([1, 1, 1, 1e-6, 1e6])), "reuse": draw(st.booleans()), "far": draw(st.sampled_from([0, 0, 0, 0, 10 ** 5, 10 ** 6, -10 ** 6]))}


def check(case):
    from ruleskit import RegressionRule, Activation

    m.apply_storage(case["storage"])
    RegressionRule.COMPUTE_SUBATTRIBUTES = case["sub"]
    out = []
    rule = m.make_rule("reg", case["cond"], case["names"])
    reuse = m.Reuse(case.get("reuse", False))
    for k, ds in enumerate(case["data"]):
        rws = m.rows(ds["table"])
        y = [v * case["scale"] for v in m.expand_y(ds["y"])]
        if case.get("far") and case["scale"] == 1:  # large compared with their deviation
            y = [v + case["far"] for v in y]
        if reuse.on and k:  # data sets of the same shape, put in turn in the same objects
            n = m.n_rows(case["data"][0]["table"])
            rws, y, ds = m.resized(rws, n), m.resized(y, n), case["data"][0]
        a = m.act(case["cond"], rws)
        kw = {} if case["horizon"] is None else {"horizon": case["horizon"]}
        yy = reuse("y", m.make_y(y, ds["how_y"]))
        if case["from_activation"]:
            rule = RegressionRule(m.make_condition(case["cond"], case["names"]), Activation(np.array(a)))
            rule.fit(y=yy, **kw)
        else:
            rule.fit(y=yy, xs=reuse("xs", m.make_xs(rws, case["names"], ds["how"])), **kw)
        m.need_act(rule.activation, a, "activation after fit")
        want = m.reg_stats(a, y, case["horizon"] or 1)
        scale = max([abs(v) for v in y if not math.isnan(v)], default=1)
        z = want.pop("zscore")
        m.need_stats(rule, want, "fit", scale=scale)
        if z != "?":
            need(m.close(rule.zscore, z, rtol=1e-6, atol=1e-6), lambda: f"zscore is {rule.zscore}, expected {z}")
        need(rule.good, "flagged bad without thresholds")
        need(rule.nones == sum(a), lambda: f"nones is {rule.nones}")
        if sum(a) > 1 and len(set(v for x, v in zip(a, y) if x and not math.isnan(v))) > 1:
            out.append("nt")
        if any(x and math.isnan(v) for x, v in zip(a, y)):
            out.append("missing target")
        if sum(a) == 0:
            out.append("no point")
        if sum(a) == 1:
            out.append("one point")
    return out


LAWS = [Law("fit", strat, check, quick=2400, rule="at least two activated points with different targets")]
