"""P12: criteria follow their formulas; a table gives column by column what each vector gives."""
import math
import random

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from ..core import Law
from ..gen import need
from .. import model as m

ASSUMPTIONS = ["normalised criteria are not compared when the targets are constant (up to rounding) or have NaN"]


@st.composite
def reg_strat(draw, tier):
    n = draw(st.one_of(st.integers(1, 12), st.integers(1, 12), st.integers(13, 40)))
    k = draw(st.integers(1, 4))
    if draw(st.integers(0, 11)) == 11:
        n = draw(st.sampled_from([64, 65, 100, 128, 129, 256, 300, 1000, 1001]))
        return {"y": {"seed": draw(st.integers(0, 10 ** 6)), "n": n, "missing": draw(st.booleans())}, "cols": [], "k": k,
                "nan_rate": draw(st.sampled_from([0, 0.01, 0.5, 0.99])), "seed": draw(st.integers(0, 10 ** 6)),
                "method": draw(st.sampled_from(m.METHODS)), "case": draw(st.sampled_from(["lower", "upper", "default"])),
                "how_y": draw(m.y_kind()), "index": draw(st.sampled_from(m.INDEX_KINDS))}
    y = draw(m.y_reg(n, missing=draw(st.sampled_from([False, False, False, True]))))
    cols = [[draw(st.one_of(st.sampled_from(m.YGRID), st.just("nan"))) for _ in range(n)] for _ in range(k)]
    if draw(st.integers(0, 2)) == 0:
        # targets, and maybe predictions, far from 0
        far = draw(st.sampled_from([1000, -1000, 10 ** 6]))
        y = [v if isinstance(v, str) else v + far for v in y]
        if draw(st.booleans()):
            cols = [[v if isinstance(v, str) else v + far for v in c] for c in cols]
    if draw(st.integers(0, 4)) == 0:
        cols[0] = list(y)
    return {"y": y, "cols": cols, "method": draw(st.sampled_from(m.METHODS)),
            "case": draw(st.sampled_from(["lower", "upper", "default"])), "how_y": draw(m.y_kind()),
            "index": draw(st.sampled_from(m.INDEX_KINDS))}


def check_reg(case):
    from ruleskit.utils import rfunctions as f

    y = m.expand_y(case["y"])
    n = len(y)
    idx = m.make_index(case["index"], n)
    cols = [m.nums(c) for c in case["cols"]]
    if "seed" in case:
        rng = random.Random(case["seed"])
        cols = [[math.nan if rng.random() < case["nan_rate"] else rng.choice(m.YGRID) + 0.0 for _ in range(n)] for _ in range(case["k"])]
    method = "mse_norm" if case["case"] == "default" else case["method"]
    kw = {} if case["case"] == "default" else {
        "criterion_method": method.upper() if case["case"] == "upper" else method}
    direct = {"mse": f.mse_function, "mae": f.mae_function, "mse_norm": f.mse_norm, "mae_norm": f.mae_norm,
              "aae": f.aae_function}[method]
    yarr = np.array(y)
    out = []

    def agree(got, want, what):
        if want == "?":
            return
        need(m.close(got, want, rtol=1e-7, atol=1e-7), lambda: f"{what}: {got}, expected {want}")

    df = pd.DataFrame({f"c{i}": c for i, c in enumerate(cols)}, index=idx, dtype=float)
    df0 = df.copy(deep=True)
    wants = [m.reg_criterion(c, y, method) for c in cols]
    whole = f.calc_regression_criterion(df, m.make_y(y, case["how_y"]), **kw)
    whole_direct = direct(df, yarr)
    for i, (c, want) in enumerate(zip(cols, wants)):
        s = pd.Series(c, index=idx, dtype=float)
        agree(f.calc_regression_criterion(s, m.make_y(y, case["how_y"]), **kw), want, f"{method} of {c} against {y}")
        agree(direct(s, yarr), want, f"{method} function of {c} against {y}")
        agree(direct(s, pd.Series(y, index=idx)), want, f"{method} function of {c} against a series")
        agree(whole.iloc[i], want, f"{method} of column {i} of a table")
        agree(whole_direct.iloc[i], want, f"{method} function of column {i} of a table")
        if want != "?" and not m.isnan(want) and any(m.isnan(v) for v in c):
            out.append("nt")
    need(list(whole.index) == list(df.columns), "labels of the table's criteria")
    need(df.equals(df0), "the predictions were modified")
    return out


@st.composite
def refuse_strat(draw, tier):
    n = draw(st.integers(1, 6))
    k = draw(st.integers(1, 6).filter(lambda v: v != n))
    return {"n": n, "k": k, "method": draw(st.sampled_from(m.METHODS)),
            "name": draw(st.sampled_from(["mse2", "", "success_rate", "rmse", "MSE ", "norm"])), "table": draw(st.booleans())}


def check_refused(case):
    from ruleskit.utils import rfunctions as f

    s = pd.Series(np.arange(case["n"], dtype=float))
    if case["table"]:
        s = s.to_frame()
    for what, call in (
        ("lengths", lambda: f.calc_regression_criterion(s, np.arange(case["k"]) * 1.0, criterion_method=case["method"])),
        ("name", lambda: f.calc_regression_criterion(s, np.arange(case["n"]) * 1.0, criterion_method=case["name"])),
        ("classification name", lambda: f.calc_classification_criterion(
            np.ones(case["n"]), 1, np.arange(case["n"]), criterion_method=case["name"] if case["name"] != "success_rate"
            else "mse")),
    ):
        try:
            got = call()
        except ValueError:
            continue
        need(False, lambda: f"{what} accepted: {case} gives {got}")
    return ["nt"]


@st.composite
def cls_strat(draw, tier):
    n = draw(st.one_of(st.integers(1, 12), st.integers(13, 40)))
    k = draw(st.integers(1, 4))
    classes = draw(st.sampled_from(m.CLASS_SETS))
    if draw(st.integers(0, 11)) == 11:
        return {"seed": draw(st.integers(0, 10 ** 6)), "n": draw(st.sampled_from([64, 65, 128, 257, 1000])), "k": k, "classes": classes,
                "rate": draw(st.sampled_from([0.01, 0.5, 0.99])), "how_y": draw(m.y_kind())}
    return {"y": [draw(st.sampled_from(classes)) for _ in range(n)],
            "acts": [draw(st.lists(st.integers(0, 1), min_size=n, max_size=n)) for _ in range(k)],
            "preds": [draw(st.sampled_from(classes)) for _ in range(k)],
            "vec": [draw(st.sampled_from(classes + [None])) for _ in range(n)], "how_y": draw(m.y_kind())}


def check_cls(case):
    from ruleskit.utils import rfunctions as f

    if "seed" in case:
        rng = random.Random(case["seed"])
        n, cs = case["n"], case["classes"]
        case = dict(case, y=[rng.choice(cs) for _ in range(n)], preds=[rng.choice(cs) for _ in range(case["k"])],
                    acts=[[int(rng.random() < case["rate"]) for _ in range(n)] for _ in range(case["k"])],
                    vec=[rng.choice(cs + [None]) for _ in range(n)])
    y, acts, preds = case["y"], case["acts"], case["preds"]
    n = len(y)
    yy = m.make_y(y, case["how_y"])
    idx = yy.index if isinstance(yy, pd.Series) else pd.RangeIndex(n)
    df = pd.DataFrame({f"c{i}": a for i, a in enumerate(acts)}, index=idx)
    table = f.calc_classification_criterion(df, pd.Series(preds, index=df.columns), yy)
    proba = f.class_probabilities(df, yy)
    out = []
    for i, (a, p) in enumerate(zip(acts, preds)):
        want = m.success(p, a, y)
        got = f.calc_classification_criterion(np.array(a), p, yy)
        need(m.close(got, want), lambda: f"success rate of {p!r} on {a}, {y}: {got}, expected {want}")
        need(m.close(table.iloc[i], want), lambda: f"success rate of column {i}: {table.iloc[i]}, expected {want}")
        counts = m.class_counts(a, y)
        got = {c: v for c, v in proba.iloc[:, i].dropna().items() if v != 0}
        need(set(got) == set(counts) and all(m.close(got[c], counts[c] / sum(a)) for c in counts),
             lambda: f"class probabilities of column {i}: {got}, expected counts {counts}")
        one = f.class_probabilities(np.array(a), yy)
        if counts:
            one = {(str(c) if isinstance(p, str) else float(c)): float(v) for c, v in one}
            need(set(one) == set(counts) and all(m.close(one[c], counts[c] / sum(a)) for c in counts),
                 lambda: f"class probabilities of {a}: {one}, expected counts {counts}")
        else:
            need(m.isnan(one), lambda: f"class probabilities without point: {one}")
        if 0 < sum(a) and not m.isnan(want) and 0 < want < 1:
            out.append("nt")
    # prediction vector of a ruleset: the success rate is over the points where a class is predicted
    vec = [v if x else None for v, x in zip(case["vec"], acts[0])]
    s = pd.Series([np.nan if v is None else v for v in vec], dtype=object if isinstance(y[0], str) else None)
    pts = [(v, t) for v, t in zip(vec, y) if v is not None]
    want = sum(v == t for v, t in pts) / len(pts) if pts else float("nan")
    got = f.calc_classification_criterion(np.array(acts[0]), s, yy)
    need(np.ndim(got) == 0 and m.close(got, want), lambda: f"success rate of {vec} on {y}: {got}, expected {want}")
    return out


@st.composite
def stat_strat(draw, tier):
    n = draw(st.one_of(st.integers(1, 12), st.integers(13, 40)))
    k = draw(st.integers(1, 4))
    if draw(st.integers(0, 11)) == 11:
        n = draw(st.sampled_from([64, 65, 128, 257, 1000]))
        return {"y": {"seed": draw(st.integers(0, 10 ** 6)), "n": n, "missing": draw(st.booleans())}, "seed": draw(st.integers(0, 10 ** 6)),
                "rate": draw(st.sampled_from([0.01, 0.5, 0.99])), "k": k, "how_y": draw(m.y_kind()), "horizon": draw(st.integers(1, 5))}
    return {"y": draw(m.y_reg(n, missing=draw(st.sampled_from([False, False, True])))),
            "acts": [draw(st.lists(st.integers(0, 1), min_size=n, max_size=n)) for _ in range(k)], "how_y": draw(m.y_kind()),
            "horizon": draw(st.integers(1, 5))}


def check_stat(case):
    from ruleskit.utils import rfunctions as f

    y = m.expand_y(case["y"])
    if "seed" in case:
        rng = random.Random(case["seed"])
        case = dict(case, acts=[[int(rng.random() < case["rate"]) for _ in y] for _ in range(case["k"])])
    acts = case["acts"]
    yy = m.make_y(y, case["how_y"])
    idx = yy.index if isinstance(yy, pd.Series) else pd.RangeIndex(len(y))
    df = pd.DataFrame({f"c{i}": a for i, a in enumerate(acts)}, index=idx)
    means, stds = f.conditional_mean(df, yy), f.conditional_std(df, yy)
    z = f.calc_zscore_external(means, df.sum(), yy, horizon=case["horizon"])
    out = []
    for i, a in enumerate(acts):
        w = m.reg_stats(a, y, case["horizon"])
        one = {"prediction": f.conditional_mean(np.array(a), yy), "std": f.conditional_std(np.array(a), yy)}
        one["zscore"] = f.calc_zscore_external(one["prediction"], int(sum(a)), yy, horizon=case["horizon"])
        for k, col in (("prediction", means), ("std", stds), ("zscore", z)):
            if w[k] == "?":
                continue
            for what, g in (("vector", one[k]), ("column", col.iloc[i])):
                need(m.close(g, w[k], rtol=1e-6, atol=1e-6), lambda: f"{k} of {what} {a} on {y}: {g}, expected {w[k]}")
        if sum(a) > 1:
            out.append("nt")
    return out


LAWS = [
    Law("regression", reg_strat, check_reg, quick=2000, rule="some predictions are missing and the criterion exists"),
    Law("refused", refuse_strat, check_refused, quick=150, rule="always"),
    Law("classification", cls_strat, check_cls, quick=1200, rule="some predictions are right and others wrong"),
    Law("statistics", stat_strat, check_stat, quick=1000, rule="at least two activated points"),
]
