"""P22: library calls never modify the data they are given, and repeating them gives the same result."""
import math
import random

import numpy as np
import pandas as pd
from bitarray import bitarray
from hypothesis import strategies as st

from ..core import Law
from ..gen import need, scratch_file
from .. import model as m

ASSUMPTIONS = ["rules of a ruleset have different conditions",
               "a classification ruleset is not evaluated nor asked to predict where none of its rules is active",
               "figures repeated are compared up to 1e-9"]

CALLS = ["cond", "r_fit", "r_fit", "r_eval", "r_eval_keep", "r_predict", "rs_fit", "rs_fit", "rs_fit", "rs_eval", "rs_eval", "rs_eval_keep",
         "rs_predict", "rs_predict", "rs_predict_w", "rs_predict_w", "rs_evaluate", "rs_criterion", "f_mean", "f_std", "f_prob", "f_reg",
         "f_cls", "f_z", "f_weighted", "activation", "multi", "condition", "setters", "ruleset", "save", "sort", "mode"]
XS_AS = ["plain", "plain", "int", "bigint", "mixed", "fortran", "view", "readonly"]


@st.composite
def strat(draw, tier):
    d = draw(st.integers(1, 3))
    pool = draw(m.conds(d, 2, 5, many=True))
    kind = draw(st.sampled_from(["reg", "reg", "cls"]))
    classes = draw(st.sampled_from(m.CLASS_SETS))
    sets = []
    for _ in range(2):
        t = draw(m.table(d, min_n=3, max_n=10, big=60))
        n = m.n_rows(t)
        y = draw(m.y_reg(n)) if kind == "reg" else {"seed": draw(st.integers(0, 10 ** 6)), "classes": classes, "n": n}
        sets.append({"table": t, "y": y, "how": draw(m.input_kind()), "how_y": draw(m.y_kind()), "as": draw(st.sampled_from(XS_AS))})
    calls = [["rs_fit", 0, 0]] if draw(st.booleans()) else []
    for _ in range(draw(st.integers(4, 14))):
        calls.append([draw(st.sampled_from(CALLS)), draw(st.integers(0, 1)), draw(st.integers(0, 999))])
    return {"kind": kind, "names": draw(m.names_for(d)), "pool": pool, "sets": sets, "calls": calls,
            "stacked": draw(st.booleans()), "stack": draw(st.booleans()), "storage": draw(m.storage())}


# ------------------------------------------------------------------------------------------------ snapshots
def snap(o):
    """Everything that can be seen of an argument."""
    if isinstance(o, np.ndarray):
        v = tuple(o.tolist()) if o.ndim == 1 else tuple(map(tuple, o.tolist()))
        return ("array", str(o.dtype), o.shape, repr(v), o.flags.writeable)
    if isinstance(o, pd.Index):
        return ("index", type(o).__name__, str(o.dtype), repr(list(o)), repr(o.name))
    if isinstance(o, pd.Series):
        return ("series", str(o.dtype), repr(o.tolist()), snap(o.index), repr(o.name))
    if isinstance(o, pd.DataFrame):
        return ("table", tuple((str(o.dtypes.iloc[i]), repr(o.iloc[:, i].tolist())) for i in range(o.shape[1])),
                snap(o.columns), snap(o.index))
    if isinstance(o, bitarray):
        return ("bits", o.to01())
    if isinstance(o, (list, tuple)):
        return (type(o).__name__, tuple(snap(x) if isinstance(x, (list, np.ndarray)) else (type(x).__name__, repr(x))
                                        if isinstance(x, (int, float, str)) else id(x) for x in o))
    if isinstance(o, dict):
        return ("dict", repr(o))
    raise AssertionError(type(o))


def result(o):
    """A comparable form of a result."""
    from ruleskit import Activation

    if o is None:
        return None
    if isinstance(o, Activation):
        return ("act", tuple(int(x) for x in o.raw))
    if isinstance(o, pd.Series):
        return ("vec", tuple(o.tolist()), tuple(map(str, o.index)))
    if isinstance(o, pd.DataFrame):
        return ("tab", tuple(tuple(o.iloc[:, i].tolist()) for i in range(o.shape[1])), tuple(map(str, o.columns)),
                tuple(map(str, o.index)))
    if isinstance(o, np.ndarray):
        return ("vec", tuple(o.tolist()) if o.ndim == 1 else tuple(map(tuple, o.tolist())))
    if isinstance(o, (list, tuple)):
        return tuple(result(x) for x in o)
    if isinstance(o, dict):
        return tuple((k, result(v)) for k, v in sorted(o.items()))
    if isinstance(o, (int, float, np.number, str)):
        return o
    raise AssertionError(type(o))


def alike(a, b, scale):
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(alike(x, y, scale) for x, y in zip(a, b))
    if a is None or b is None:
        return m.isnan(a) and m.isnan(b)
    if isinstance(a, str) or isinstance(b, str):
        return isinstance(a, str) and isinstance(b, str) and a == b
    return m.close(a, b, atol=1e-9 * scale)


def rule_state(r):
    return {k: getattr(r, k, None) for k in ("prediction", "std", "sign", "zscore", "coverage", "train_set_size")} | {
        "activation": None if r.activation is None else np.array(r.activation)}


def check(case):
    from ruleskit import RuleSet, Activation, HyperrectangleCondition
    from ruleskit.utils import rfunctions as F

    m.apply_storage(case["storage"])
    RuleSet.STACKED_FIT = case["stacked"]
    kind, names, pool = case["kind"], case["names"], case["pool"]
    exp = m.expand_y if kind == "reg" else m.expand_classes
    raw = [{"rows": m.rows(s["table"]), "y": exp(s["y"])} for s in case["sets"]]
    for dd, s in zip(raw, case["sets"]):
        if s["as"] == "bigint":  # a column of integers, one of them beyond 32 bits
            for r in dd["rows"]:
                r[0] = float(round(r[0])) if math.isfinite(r[0]) and abs(r[0]) < 2 ** 40 else 0.0
            dd["rows"][-1][0] = 2.0 ** 40
    acts = [[m.act(c, dd["rows"]) for c in pool] for dd in raw]
    scale = max([1.0] + [abs(v) for dd in raw for v in dd["y"] if not isinstance(v, str)])
    watched = []  # (what, object, snapshot)

    def watch(what, o):
        watched.append((what, o, snap(o)))
        return o

    data = []
    for k, s in enumerate(case["sets"]):
        x = m.make_xs(raw[k]["rows"], names, s["how"])
        if isinstance(x, np.ndarray):
            if s["as"] == "int" and all(v == int(v) if not (math.isnan(v) or math.isinf(v)) else False for r in raw[k]["rows"] for v in r) \
                    and all(abs(v) < 2 ** 40 for r in raw[k]["rows"] for v in r):
                x = x.astype(int)
            elif s["as"] == "fortran":
                x = np.asfortranarray(x)
            elif s["as"] == "view":
                big = np.full((x.shape[0] * 2, x.shape[1] + 1), 7.0)
                big[::2, : x.shape[1]] = x
                watch("array the features are a view of", big)
                x = big[::2, : x.shape[1]]
            elif s["as"] == "readonly":
                x.flags.writeable = False
        elif s["as"] in ("int", "bigint", "mixed"):
            for n in names:
                v = [float(q) for q in x[n]]
                if s["as"] == "mixed" and all(math.isnan(q) or float(np.float32(q)) == q for q in v):
                    x[n] = x[n].astype(np.float32)
                elif s["as"] != "mixed" and all(math.isfinite(q) and q == int(q) and abs(q) <= 2 ** 40 for q in v):
                    x[n] = x[n].astype(np.int64)
        y = m.make_y(raw[k]["y"], s["how_y"])
        if isinstance(y, np.ndarray) and s["as"] == "readonly":
            y.flags.writeable = False
        data.append((watch("features", x), watch("targets", y)))

    rules = [m.make_rule(kind, c, names) for c in pool]
    given = list(rules)
    rs = RuleSet(watch("list of rules", given), stack_activation=case["stack"])
    lone = [m.make_rule(kind, c, names) for c in pool]
    state = {"fit": None, "held": None}  # data sets the ruleset was fitted on, and the rows its activations are about
    memory = {}
    out = []

    def again(key, value, what):
        value = result(value)
        if key in memory:
            need(alike(memory[key], value, scale), lambda: f"{what}: the same call gave {memory[key]} before, {value} now")
            out.append("repeated")
        else:
            memory[key] = value

    def live(k):
        """some fitted rule is active on data set k"""
        return state["fit"] is not None and any(any(a) and any(b) for a, b in zip(acts[k], acts[state["fit"]]))

    for name, k, z in case["calls"]:
        x, y = data[k]
        i = z % len(pool)
        key = (name, k, z % 7)
        if name == "cond":
            again((name, k, i), lone[i].condition.evaluate(x), "condition.evaluate")
        elif name == "r_fit":
            r = lone[i] if z % 2 else m.make_rule(kind, pool[i], names)
            r.fit(xs=x, y=y)
            again((name, k, i), rule_state(r), "rule.fit")
        elif name in ("r_eval", "r_eval_keep"):
            r = m.make_rule(kind, pool[i], names)
            r.fit(xs=data[1 - k][0], y=data[1 - k][1])
            for _ in range(1 + z % 2):
                r.eval(xs=x, y=y, recompute_activation=name == "r_eval_keep")
                again((name, k, i), dict(rule_state(r), criterion=r.criterion), "rule.eval")
        elif name == "r_predict":
            r = m.make_rule(kind, pool[i], names)
            r.fit(xs=data[0][0], y=data[0][1])
            for _ in range(1 + z % 2):
                again((name, k, i), list(r.predict(x)), "rule.predict")
        elif name == "rs_fit":
            rs.fit(y=y, xs=x)
            state.update(fit=k, held=k)
            again((name, k), [rule_state(r) for r in sorted(rs, key=lambda r: [q is r for q in rules].index(True))], "ruleset.fit")
            again((name, k, "self"), rs.activation, "ruleset.fit")
        elif name in ("rs_eval", "rs_eval_keep"):
            if state["fit"] is not None and (kind == "reg" or live(k)):
                rs.eval(y=y, xs=x, keep_new_activations=name == "rs_eval_keep")
                if name == "rs_eval_keep":
                    state["held"] = k
                again(("rs_eval", k, state["fit"]), [r.criterion for r in rules] + [rs.criterion, rs.test_set_size], "ruleset.eval")
        elif name == "rs_predict":
            if state["fit"] is not None and (kind == "reg" or live(k)):
                again((name, k, state["fit"]), list(rs.predict(x)), "ruleset.predict")
                if kind == "reg" or live(state["held"]):
                    again((name, state["held"], state["fit"]), list(rs.predict()), "ruleset.predict")
        elif name == "rs_predict_w":
            if state["fit"] is not None and (kind == "reg" or not case["stacked"]) and live(k):
                wl = [1.0 + (z >> j) % 3 for j in range(len(rules))]
                if z % 4 == 0:
                    # the first rule taking part keeps its weight
                    one = [bool(any(a) and any(b)) for a, b in zip(acts[k], acts[state["fit"]])].index(True)
                    wl = [v if j == one or v == 1 else math.nan if v == 2 else 0.0 for j, v in enumerate(wl)]
                w = watch("weights", pd.Series({str(r.condition): v for r, v in zip(rules, wl)}, dtype=float))
                again((name, k, state["fit"], repr(wl)), list(rs.predict(x, weights=w)), "ruleset.predict with weights")
        elif name == "rs_evaluate":
            again((name, k), rs.evaluate(x), "ruleset.evaluate")
        elif name == "rs_criterion":
            if state["fit"] is not None and (kind == "reg" or live(k)):
                p = watch("predictions", rs.predict(x))
                keep = rs.criterion
                rs.calc_criterion(y=y, xs=x, predictions=p)
                again((name, k, state["fit"]), rs.criterion, "ruleset.calc_criterion")
                rs.criterion = keep
        elif name in ("f_mean", "f_std", "f_prob"):
            a = watch("activation", np.array(acts[k][i], dtype=[np.ubyte, int, float][z % 3]))
            df = watch("activations", pd.DataFrame({str(c.condition): np.array(acts[k][j]) for j, c in enumerate(lone)}))
            if isinstance(y, pd.Series):
                df.index = y.index
                watched[-1] = (watched[-1][0], df, snap(df))
            f = {"f_mean": F.conditional_mean, "f_std": F.conditional_std, "f_prob": F.class_probabilities}[name]
            if name == "f_prob" or kind == "reg":
                again((name, k, i), f(a, y), name)
                again((name, k, "all"), f(df, y), name)
                # the same targets as one column of a table
                col = np.array(y).reshape(-1, 1)
                if name != "f_prob":
                    again((name, k, i), f(a, watch("column of targets", col)), name)
                if name == "f_mean":
                    again((name, k, "all"), f(df, col), name)
                else:
                    again((name, k, "all"), f(df, watch("column of targets", [col, pd.DataFrame({"y": col[:, 0]})][z // 3 % 2])), name)
        elif name == "f_reg":
            if kind == "reg":
                idx = y.index if isinstance(y, pd.Series) else None
                p = watch("predictions", pd.Series([v if b else math.nan for v, b in zip([1.5, 2.0, -1.0] * len(y), acts[k][i])], index=idx))
                df = watch("predictions", pd.DataFrame({j: [1.0 + j if b else math.nan for b in acts[k][j]] for j in range(len(pool))}, index=idx))
                meth = m.METHODS[z % 5]
                again((name, k, i, meth), F.calc_regression_criterion(p, y, criterion_method=meth), meth)
                again((name, k, "all", meth), F.calc_regression_criterion(df, y, criterion_method=meth), meth)
        elif name == "f_cls":
            if kind == "cls":
                a = watch("activation", np.array(acts[k][i]))
                df = watch("activations", pd.DataFrame({j: acts[k][j] for j in range(len(pool))}))
                if isinstance(y, pd.Series):
                    df.index = y.index
                    watched[-1] = (watched[-1][0], df, snap(df))
                c = raw[k]["y"][z % len(raw[k]["y"])]
                ps = watch("predictions", pd.Series([c] * len(pool)))
                again((name, k, i, c), F.calc_classification_criterion(a, c, y), "classification criterion")
                again((name, k, "all", c), F.calc_classification_criterion(df, ps, y), "classification criterion")
                if any(acts[k][i]):
                    yy = watch("activated targets", np.array([v for v, b in zip(raw[k]["y"], acts[k][i]) if b]))
                    again(("rate", k, i, c), F.success_rate(c, yy), "success rate")
        elif name == "f_z":
            if kind == "reg":
                n = watch("numbers of points", pd.Series({j: sum(a) for j, a in enumerate(acts[k])}))
                p = watch("predictions", pd.Series({j: 1.0 + j for j in range(len(pool))}))
                again((name, k), F.calc_zscore_external(p, n, y), "z-score")
        elif name == "f_weighted":
            pv = pd.DataFrame({j: [float(j) if b else math.nan for b in acts[k][j]] for j in range(len(pool))})
            w = pd.DataFrame({j: [float((z >> j) % 3) if b else math.nan for b in acts[k][j]] for j in range(len(pool))})
            watch("prediction vectors", pv), watch("weights", w)
            if any((z >> j) % 3 and any(acts[k][j]) for j in range(len(pool))):
                again((name, k, z), F.calc_ruleset_prediction_weighted_regressor_stacked(pv, w), "weighted prediction")
            again((name, k), F.calc_ruleset_prediction_equally_weighted_regressor_stacked(pv), "prediction")
        elif name == "activation":
            b = acts[k][i]
            a1 = watch("raw vector", np.array(b, dtype=[np.ubyte, int, float, bool][z % 4]))
            a2 = watch("bit array", bitarray(b))
            to_file = z % 2 == 0
            for o in (a1, a2):
                act = Activation(o, to_file=to_file)
                again((name, k, i, "raw"), np.array(act.raw).astype(int), "activation")
                act.as_bitarray, act.as_integer, act.as_compressed_str, act.as_compressed_array, act.entropy, act.nones
                again((name, k, i, "raw"), np.array(act.raw).astype(int), "activation after conversions")
                # what the library gives can be changed without changing what it holds, and so can what it was given
                act.delete()
        elif name == "multi":
            lst = watch("list of activations", [Activation(np.array(a, dtype=np.ubyte), to_file=bool(z % 2)) for a in acts[k]])
            for f, nm in ((Activation.multi_logical_and, "and"), (Activation.multi_logical_or, "or")):
                again((name, nm, k), f(lst), f"multi {nm}")
                again((name, nm, k, "array"), np.array(f(lst, asarray=True)).astype(int), f"multi {nm}")
            for o, b in zip(lst, acts[k]):
                m.need_act(o.raw, b, "operand of a multi-vector operator")
        elif name in ("condition", "setters"):
            c = pool[i]
            lists = [watch("list", list(c["f"])), watch("list", [names[f] for f in c["f"]]), watch("list", m.nums(c["lo"])), watch("list", m.nums(c["hi"]))]
            cond = HyperrectangleCondition(features_indexes=lists[0], features_names=lists[1], bmins=lists[2], bmaxs=lists[3])
            cond.sort()
            if name == "setters":
                cond = HyperrectangleCondition(features_indexes=list(c["f"]), bmins=[0] * len(c["f"]), bmaxs=[1] * len(c["f"]), sort=False)
                cond.features_names, cond.features_indexes = lists[1], lists[0]
                cond.bmins, cond.bmaxs = watch("list", [-1e9] * len(c["f"])), watch("list", [1e9] * len(c["f"]))
                cond.bmins, cond.bmaxs = lists[2], lists[3]
                cond.sort()
            both = cond & lone[(i + 1) % len(pool)].condition
            cond.sort(), both.sort()
            again((name, k, i), both.evaluate(x), "combined condition")
        elif name == "ruleset":
            lst = watch("list of rules", [m.make_rule(kind, c, names) for c in pool])
            r2 = RuleSet(lst, stack_activation=case["stack"])
            if z % 3 == 0:
                r2.sort(reverse=True)
            elif z % 3 == 1:
                r2.append(m.make_rule(kind, {"f": [0], "lo": [-99], "hi": [99]}, names))
            r2.fit(y=y, xs=x)
            if z % 3 == 2:
                again((name, k), [rule_state(r) for r in lst], "fit of another ruleset")
        elif name == "save":
            if state["fit"] is not None:
                rs.save(scratch_file("saved.csv"))
        elif name == "sort":
            rs.sort(reverse=bool(z % 2))
        elif name == "mode":
            if not case["stack"]:
                RuleSet.STACKED_FIT = not RuleSet.STACKED_FIT
                case = dict(case, stacked=RuleSet.STACKED_FIT)
        for what, o, s in watched:
            now = snap(o)
            need(now == s, lambda: f"{name} changed the {what} it was given: {s} became {now}")
    if len(watched) > 5 and "repeated" in out:
        out.append("nt")
    return out


LAWS = [Law("arguments", strat, check, quick=900, rule="some call is repeated, and more than five arguments are watched")]
