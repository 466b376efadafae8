"""P32: figures computed step by step, or with the functions, are those that fit and eval give."""
import math

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from ..core import Law
from ..gen import need
from .. import model as m

ASSUMPTIONS = ["rules of a ruleset have different conditions",
               "one-column tables and arrays of one column are given as targets of classes, of means and of deviations only"]

DTYPES = ["ubyte", "int64", "bool", "float64"]


# ------------------------------------------------------------------------------------------------ the functions
@st.composite
def fun_strat(draw, tier):
    if draw(st.integers(0, 19)) == 19:
        n = draw(st.sampled_from([256, 300, 1025]))
        seed = draw(st.integers(0, 10 ** 6))
        acts = {"seed": seed, "k": draw(st.integers(1, 3)), "n": n, "p": draw(st.sampled_from([0.02, 0.5, 0.95]))}
    else:
        n = draw(st.integers(1, 10))
        acts = [[draw(st.sampled_from([0, 1])) for _ in range(n)] for _ in range(draw(st.integers(1, 4)))]
    kind = draw(st.sampled_from(["reg", "cls"]))
    if kind == "reg":
        y = draw(m.y_reg(n))
    else:
        y = {"seed": draw(st.integers(0, 10 ** 6)), "classes": draw(st.sampled_from(m.CLASS_SETS)), "n": n} if n > 12 or draw(st.booleans()) \
            else [draw(st.sampled_from(["a", "b"])) for _ in range(n)]
    return {"kind": kind, "acts": acts, "n": n, "y": y, "dtype": draw(st.sampled_from(DTYPES)),
            "y_as": draw(st.sampled_from(["array", "series", "series", "frame", "column"])),
            "y_index": draw(st.sampled_from(m.INDEX_KINDS)), "index": draw(st.sampled_from(["range", "range", "same"])),
            "preds": [draw(st.integers(-3, 3)) for _ in range(4)], "horizon": draw(st.sampled_from([1, 2, 0.5, 12])),
            "columns": draw(st.sampled_from(["text", "number"]))}


def expand_acts(a):
    if isinstance(a, dict):
        import random
        rng = random.Random(a["seed"])
        return [[1 if rng.random() < a["p"] else 0 for _ in range(a["n"])] for _ in range(a["k"])]
    return a


def check_fun(case):
    from ruleskit.utils import rfunctions as F

    kind, n = case["kind"], case["n"]
    acts = expand_acts(case["acts"])
    y = m.expand_y(case["y"]) if kind == "reg" else m.expand_classes(case["y"])
    dtype = {"ubyte": np.ubyte, "int64": np.int64, "bool": bool, "float64": float}[case["dtype"]]
    vecs = [np.array(a).astype(dtype) for a in acts]
    cols = ["r%d" % i for i in range(len(acts))] if case["columns"] == "text" else list(range(len(acts)))
    y_index = m.make_index(case["y_index"], n)
    frame = pd.DataFrame({c: v for c, v in zip(cols, vecs)})
    if case["index"] == "same":
        frame.index = y_index
    form = case["y_as"] if n > 1 else "array" if case["y_as"] == "column" else case["y_as"]
    arr = np.array(y)
    ys = {"array": arr, "series": pd.Series(y, index=y_index), "frame": pd.DataFrame({"y": y}, index=y_index), "column": arr.reshape(-1, 1)}[form]
    scale = max([1.0] + [abs(v) for v in y if not isinstance(v, str)])

    def same(got, want, what):
        if isinstance(want, str) and want == "?":
            return
        need(np.ndim(got) == 0 and m.close(got, want, atol=1e-9 * scale), lambda: f"{what} is {got!r}, expected {want!r}")

    def same_all(got, want, what):
        need(isinstance(got, pd.Series) and list(got.index) == cols, lambda: f"{what} is {got!r}, expected one value per column {cols}")
        for g, w, c in zip(got, want, cols):
            same(g, w, f"{what}: column {c}")

    if kind == "reg":
        stats = [m.reg_stats(a, y, case["horizon"]) for a in acts]
        for a, v, s in zip(acts, vecs, stats):
            same(F.conditional_mean(v, ys), s["prediction"], f"mean of {y} over {a}")
            same(F.conditional_std(v, ys), s["std"], f"deviation of {y} over {a}")
            pts = [t for x, t in zip(a, y) if x]
            if pts:
                for e in (np.array(pts), pd.Series(pts)):
                    same(F.conditional_mean(None, e), s["prediction"], f"mean of the extracted {pts}")
                    same(F.conditional_std(None, e), s["std"], f"deviation of the extracted {pts}")
        same_all(F.conditional_mean(frame, ys), [s["prediction"] for s in stats], "means")
        same_all(F.conditional_std(frame, ys), [s["std"] for s in stats], "deviations")
        if form in ("array", "series"):
            preds = [s["prediction"] for s in stats]
            nones = [sum(a) for a in acts]
            z = [s["zscore"] for s in stats]
            for p, k, w in zip(preds, nones, z):
                if k:
                    got = F.calc_zscore_external(p, k, ys, case["horizon"])
                    if not isinstance(w, str):
                        need(m.close(got, w, rtol=1e-6, atol=1e-6), lambda: f"z-score {got}, expected {w}")
            got = F.calc_zscore_external(pd.Series(preds, index=cols), pd.Series(nones, index=cols), ys, case["horizon"])
            for g, w, k in zip(got, z, nones):
                if k and not isinstance(w, str):
                    need(m.close(g, w, rtol=1e-6, atol=1e-6), lambda: f"z-scores {list(got)}, expected {z}")
        return ["nt", form] if any(m.nontrivial_act(a) for a in acts) else []

    counts = [m.class_counts(a, y) for a in acts]
    classes = sorted({c for k in counts for c in k})
    for a, v, k in zip(acts, vecs, counts):
        got = F.class_probabilities(v, ys)
        if not k:
            need(np.ndim(got) == 0 and m.isnan(got), lambda: f"probabilities without any point: {got!r}")
        else:
            want = [[c, k[c] / sum(k.values())] for c in sorted(k)]
            need(len(got) == len(want) and all((str(g[0]) == w[0] if isinstance(w[0], str) else float(g[0]) == w[0]) and m.close(float(g[1]), w[1])
                                               for g, w in zip(got, want)), lambda: f"probabilities of {y} over {a}: {got}, expected {want}")
    if classes:
        got = F.class_probabilities(frame, ys)
        need(list(got.columns) == cols and sorted(got.index) == classes, lambda: f"probabilities {got}, expected classes {classes}")
        for c, k in zip(cols, counts):
            for cl in classes:
                g, w = got.loc[cl, c], k.get(cl, 0) / max(1, sum(k.values()))
                need((m.isnan(g) and not w) or m.close(g, w), lambda: f"probability of {cl!r} for {c}: {g}, expected {w}")
    pool = sorted(set(y)) + ["none of them" if isinstance(y[0], str) else -55]
    preds = [pool[p % len(pool)] for p, _ in zip(case["preds"], acts)]
    want = [m.success(p, a, y) for p, a in zip(preds, acts)]
    for p, v, w, a in zip(preds, vecs, want, acts):
        same(F.calc_classification_criterion(v, p, ys), w, f"success rate of {p!r} on {y} over {a}")
        same(F.success_rate(p, np.array([t for t, x in zip(y, a) if x])), w, f"success rate of {p!r}")
    same_all(F.calc_classification_criterion(frame, pd.Series(preds, index=cols), ys), want, "success rates")
    # predictions row by row
    if form in ("array", "series"):
        for a, v in zip(acts, vecs):
            rowwise = [pool[(i + case["preds"][0]) % len(pool)] for i in range(n)]
            pts = [(p, t) for p, t, x in zip(rowwise, y, a) if x]
            w = sum(1 for p, t in pts if p == t) / len(pts) if pts else math.nan
            same(F.calc_classification_criterion(v, pd.Series(rowwise), ys), w, f"success rate of {rowwise} on {y} over {a}")
    return ["nt", form] if any(m.nontrivial_act(a) for a in acts) else []


# ------------------------------------------------------------------------------------------------ the methods
@st.composite
def step_strat(draw, tier):
    d = draw(m.dims(3))
    kind = draw(st.sampled_from(["reg", "reg", "cls"]))
    classes = draw(st.sampled_from(m.CLASS_SETS))
    sets = []
    for _ in range(2):
        t = draw(m.table(d, min_n=2, max_n=8, big=40))
        n = m.n_rows(t)
        y = draw(m.y_reg(n)) if kind == "reg" else {"seed": draw(st.integers(0, 10 ** 6)), "classes": classes, "n": n}
        sets.append({"table": t, "y": y, "how": draw(m.input_kind()), "how_y": draw(m.y_kind())})
    return {"kind": kind, "names": draw(m.names_for(d)), "pool": draw(m.conds(d, 1, 4, many=True)), "sets": sets, "storage": draw(m.storage()),
            "stacked": draw(st.booleans()), "before": draw(st.sampled_from(["fit", "calc", "calc"])), "given": draw(st.booleans()),
            "horizon": draw(st.sampled_from([None, 1, 3])), "method": draw(st.sampled_from([None] + m.METHODS)),
            "order": draw(st.permutations(["predictions", "stds", "signs", "zscores", "criterions", "sizes", "criterion"])),
            "own": draw(st.booleans())}


def check_step(case):
    from ruleskit import RuleSet

    m.apply_storage(case["storage"])
    RuleSet.STACKED_FIT = case["stacked"]
    kind, names, pool = case["kind"], case["names"], case["pool"]
    exp = m.expand_y if kind == "reg" else m.expand_classes
    data = [{"rows": m.rows(s["table"]), "y": exp(s["y"])} for s in case["sets"]]
    acts = [[m.act(c, dd["rows"]) for c in pool] for dd in data]
    scale = max([1.0] + [abs(v) for dd in data for v in dd["y"] if not isinstance(v, str)])
    hor = {} if case["horizon"] is None else {"horizon": case["horizon"]}
    method = case["method"] or "mse_norm"
    mkw = {"criterion_method": method} if case["method"] and kind == "reg" else {}

    def xs(k):
        return m.make_xs(data[k]["rows"], names, case["sets"][k]["how"])

    def y(k):
        return m.make_y(data[k]["y"], case["sets"][k]["how_y"])

    stats = [m.reg_stats(a, data[0]["y"], case["horizon"] or 1) if kind == "reg" else
             {"prediction": m.vote(m.class_counts(a, data[0]["y"])), "train_set_size": len(data[0]["y"])} for a in acts[0]]
    preds = [s["prediction"] for s in stats]

    def crits(k):
        if kind == "reg":
            return [m.reg_criterion([p if x else math.nan for x in a], data[k]["y"], method) for a, p in zip(acts[k], preds)]
        return [m.success(p, a, data[k]["y"]) for a, p in zip(acts[k], preds)]

    def eq(got, want, what, tol=1e-9):
        if isinstance(want, str) and want == "?":
            return
        if kind == "cls" and "prediction" in what:
            need(m.same_class(got, want), lambda: f"{what} is {got!r}, expected {want!r}")
        else:
            need(np.ndim(got) == 0 and m.close(got, want, rtol=max(tol, 1e-9), atol=tol * scale * scale), lambda: f"{what} is {got!r}, expected {want!r}")

    # rules, one method after the other
    rules = [m.make_rule(kind, c, names) for c in pool]
    for i, r in enumerate(rules):
        for f in ("calc_prediction", "calc_std", "calc_zscore", "calc_criterion") if kind == "reg" else ("calc_criterion",):
            getattr(r, f)(y=y(0))
        need(r.prediction is None and r.criterion is None and r.activation is None, lambda: f"rule {i} without activation: prediction {r.prediction!r}")
        r.calc_activation(xs(0))
        m.need_act(r.activation, acts[0][i], f"activation of rule {i}")
        need(r.prediction is None and r.train_set_size is None, f"rule {i}: figures that were not computed")
        got = r.calc_prediction_vector()
        need(len(got) == len(acts[0][i]) and bool(got.isna().all()), lambda: f"rule {i} without prediction predicts {list(got)}")
        r.calc_prediction(y=y(0))
        eq(r.prediction, preds[i], f"prediction of rule {i}")
        r.calc_train_set_size(y=y(0))
        need(r.train_set_size == len(data[0]["y"]) and r.test_set_size is None, lambda: f"sizes of rule {i}: {r.train_set_size}, {r.test_set_size}")
        if kind == "reg":
            need(r.std is None and r.sign is None and r.zscore is None, f"rule {i}: figures that were not computed")
            r.calc_std(y=y(0))
            r.calc_sign()
            r.calc_zscore(y=y(0), **hor)
            m.need_stats(r, {k: v for k, v in stats[i].items() if k != "zscore"}, f"rule {i}", scale=scale)
            eq(r.zscore, stats[i]["zscore"], f"zscore of rule {i}", 1e-6)
        # on the rows of another table, with an activation that is given
        k = 1 if case["given"] else 0
        a = r.evaluate_activation(xs(k)) if case["given"] else None
        r.calc_criterion(y=y(k), activation=a, **mkw)
        eq(r.criterion, crits(k)[i], f"criterion of rule {i}", 1e-6)
        r.calc_test_set_size(y=y(k))
        need(r.test_set_size == len(data[k]["y"]) and r.train_set_size == len(data[0]["y"]), lambda: f"sizes of rule {i}: {r.train_set_size}, {r.test_set_size}")
        eq(r.prediction, preds[i], f"prediction of rule {i} after its evaluation")
        m.need_act(r.activation, acts[0][i], f"activation of rule {i} after its evaluation")
        for q, g in ((0, r.calc_prediction_vector()), (1, r.calc_prediction_vector(r.evaluate_activation(xs(1)).raw))):
            need(isinstance(g, pd.Series) and m.same_vector(g, [preds[i] if x else math.nan for x in acts[q][i]], (
                lambda a, b: m.close(a, b, 1e-9, 1e-9 * scale)) if kind == "reg" else m.same_class),
                lambda: f"prediction vector of rule {i}: {list(g)}, prediction {preds[i]!r}, activation {acts[q][i]}")
        got = r.predict()
        want = [preds[i] if x else math.nan for x in acts[0][i]]
        need(m.same_vector(got, want, (lambda g, w: m.close(g, w, 1e-9, 1e-9 * scale)) if kind == "reg" else (
            lambda g, w: str(g) == "nan" if m.isnan(w) else m.same_class(g, w))), lambda: f"rule {i} predicts {list(got)}, expected {want}")

    # rules that only ever see activations that are given
    if kind == "reg":
        for i, r in enumerate([m.make_rule(kind, c, names) for c in pool]):
            a0 = m.make_rule(kind, pool[i], names).evaluate_activation(xs(0))
            for f in ("calc_prediction", "calc_std", "calc_sign", "calc_zscore", "calc_criterion"):
                if f == "calc_sign":
                    r.calc_sign()
                elif f == "calc_criterion":
                    r.calc_criterion(y=y(1), activation=r.evaluate_activation(xs(1)), **mkw)
                else:
                    getattr(r, f)(y=y(0), activation=a0, **(hor if f == "calc_zscore" else {}))
                need(r.activation is None, lambda: f"rule {i}: {f} keeps the activation that was given for one call")
            m.need_stats(r, {k: v for k, v in stats[i].items() if k in ("prediction", "std", "sign")}, f"rule {i}, given activations", scale=scale)
            eq(r.zscore, stats[i]["zscore"], f"zscore of rule {i}, given activations", 1e-6)
            eq(r.criterion, crits(1)[i], f"criterion of rule {i}, given activations", 1e-6)
            m.need_act(a0.raw, acts[0][i], f"activation given to rule {i}")

    # the ruleset, all rules at once
    rules = [m.make_rule(kind, c, names) for c in pool]
    rs = RuleSet(list(rules), stack_activation=True)
    fitted = case["before"] == "fit"
    if fitted:
        rs.fit(y=y(0), xs=xs(0))
    else:
        rs.calc_activation(xs(0))
    cols = [str(r.condition) for r in rules]
    # vectors that are given, or its own
    sa = None if case["own"] else rs.evaluate_stacked_activations(xs(0))
    pser = pd.Series(preds, index=cols)

    def need_all(got, want, what, tol=1e-9):
        need(isinstance(got, pd.Series) and list(got.index) == cols, lambda: f"{what}: {got!r}, expected one per rule")
        for g, w, c in zip(got, want, cols):
            eq(g, w, f"{what} of {c}", tol)

    for k in (0, 1, None):
        h = 0 if k is None else k
        got = rs.evaluate_self_activation(None if k is None else xs(k), return_nones=True)
        need(isinstance(got, tuple) and len(got) == 2, lambda: f"activation and counts: {got!r}")
        m.need_act(got[0].raw, [1 if any(c) else 0 for c in zip(*acts[h])], f"activation of the ruleset, set {k}")
        need(list(got[1].index) == cols and list(got[1]) == [sum(a) for a in acts[h]],
             lambda: f"counts of activated points, set {k}: {dict(got[1])}, expected {[sum(a) for a in acts[h]]}")
        one = rs.evaluate_self_activation(None if k is None else xs(k))
        m.need_act(one.raw, [1 if any(c) else 0 for c in zip(*acts[h])], f"activation of the ruleset, set {k}")
    for what in case["order"]:
        if what == "predictions":
            need_all(rs.calc_predictions(y=y(0), stacked_activations=sa), preds, "prediction")
        elif what in ("stds", "signs", "zscores") and kind == "cls":
            try:
                got = {"stds": lambda: rs.calc_stds(y=y(0)), "signs": rs.calc_signs, "zscores": lambda: rs.calc_zscores(y=y(0))}[what]()
            except TypeError:
                pass
            else:
                need(False, lambda: f"{what} of rules about classes: {got!r}")
        elif what == "stds":
            need_all(rs.calc_stds(y=y(0), stacked_activations=sa), [s["std"] for s in stats], "deviation")
        elif what == "signs":
            got = rs.calc_signs() if fitted else rs.calc_signs(pser)
            for g, s, p in zip(got, stats, preds):
                need(s["sign"] == "?" or m.isnan(p) or g == s["sign"], lambda: f"signs {list(got)}, predictions {preds}")
        elif what == "zscores":
            want = [s["zscore"] if sum(a) else math.nan for s, a in zip(stats, acts[0])]
            need_all(rs.calc_zscores(y=y(0), **hor), want, "zscore", 1e-6)
            need_all(rs.calc_zscores(y=y(0), predictions=pser, nones=pd.Series([sum(a) for a in acts[0]], index=cols), **hor), want, "zscore", 1e-6)
        elif what == "criterions":
            need_all(rs.calc_criterions(y=y(0), stacked_activations=sa, **mkw), crits(0), "criterion", 1e-6)
            other = rs.evaluate_stacked_activations(xs(1))
            need_all(rs.calc_criterions(y=y(1), predictions=pser, stacked_activations=other, **mkw), crits(1), "criterion on other rows", 1e-6)
        elif what == "sizes":
            n = len(data[0]["y"])
            need(list(rs.calc_train_set_sizes(y=y(0))) == [n] * len(pool) and list(rs.calc_test_set_sizes(y=y(0))) == [n] * len(pool), "sizes")
        elif what == "criterion" and kind == "reg":
            vec = [0.5 * i for i in range(len(data[1]["y"]))]
            got = rs.calc_criterion(y=y(1), predictions=pd.Series(vec), **mkw)
            need(got is None, lambda: f"calc_criterion returned {got!r}")
            eq(rs.criterion, m.reg_criterion(vec, data[1]["y"], method), "criterion of the ruleset", 1e-6)
        for i, r in enumerate(rules):
            if not fitted:
                need(r.prediction is None and r.criterion is None, lambda: f"{what}: sets figures of rule {i}")
            m.need_act(r.activation, acts[0][i], f"{what}: activation of rule {i}")
            m.need_act(rs.stacked_activations.iloc[:, i].values, acts[0][i], f"{what}: stacked activation of rule {i}")
    out = [case["before"]]
    if any(m.nontrivial_act(a) for a in acts[0]):
        out.append("nt")
    return out


LAWS = [
    Law("functions", fun_strat, check_fun, quick=2000, rule="some vector has zeros and ones"),
    Law("steps", step_strat, check_step, quick=1000, rule="some rule is active on some of the rows only"),
]
