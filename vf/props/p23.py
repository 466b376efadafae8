"""P23: evaluation keeps the training state unless told otherwise (life cycle of a ruleset)."""
import json
import math

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from ..core import Law
from ..gen import need, scratch_file, look, looked_at
from .. import model as m
from .p16 import expected as weighted_mean
from .p17 import expected as weighted_vote

ASSUMPTIONS = ["rules of a ruleset have different conditions", 
               "a classification ruleset is not evaluated where none of its rules is active",
               "criteria and test size are not judged between a new fit and the next evaluation",
               "weights of an evaluation are positive; stacked weighted votes are not judged"]


@st.composite
def strat(draw, tier):
    d = draw(m.dims(3))
    kind = draw(st.sampled_from(["reg", "reg", "cls"]))
    classes = draw(st.sampled_from(m.CLASS_SETS))
    pool = draw(m.conds(d, draw(st.integers(1, 3)), 5, many=True))
    sets = []
    for _ in range(3):
        t = draw(m.table(d, min_n=draw(st.sampled_from([1, 4])), max_n=9, big=60))
        n = m.n_rows(t)
        if kind == "reg":
            y = draw(m.y_reg(n))
        elif n > 40:
            y = {"seed": draw(st.integers(0, 10 ** 6)), "classes": classes, "n": n}
        else:
            y = [draw(st.sampled_from(classes)) for _ in range(n)]
        sets.append({"table": t, "y": y, "how": draw(m.input_kind()), "how_y": draw(m.y_kind())})
    ops = [["fit", draw(st.integers(0, 2)), 0]]
    for _ in range(draw(st.integers(2, 9))):
        ops.append([draw(st.sampled_from(["fit", "fit_none", "eval", "eval", "eval", "keep", "keep", "train", "train", "predict",
                                          "predict_none", "w_eval", "w_keep", "w_train", "release"])),
                    draw(st.integers(0, 2)), draw(st.integers(0, 99))])
    return {"kind": kind, "names": draw(m.names_for(d)), "pool": pool, "sets": sets, "ops": ops, "look": draw(look()),
            "stacked": draw(st.sampled_from(["never", "always", "mixed"])), "stack": draw(st.booleans()),
            "method": draw(st.sampled_from([None] + m.METHODS)), "storage": draw(m.storage()),
            "limit": draw(st.sampled_from([None, None, ["max", 0.4], ["max", 0.9], ["max", 1.2], ["min", 0.3], ["min", 0.8]]))}


def check(case):
    from ruleskit import RuleSet, RegressionRule, ClassificationRule

    m.apply_storage(case["storage"])
    kind, names, pool = case["kind"], case["names"], case["pool"]
    exp = m.expand_y if kind == "reg" else m.expand_classes
    data = [{"rows": m.rows(s["table"]), "y": exp(s["y"])} for s in case["sets"]]
    acts = [[m.act(c, dd["rows"]) for c in pool] for dd in data]
    scale = max([1.0] + [abs(v) for dd in data for v in dd["y"] if not isinstance(v, str)])
    lim = case["limit"]
    if lim is not None:
        p = scratch_file("limits.json")
        p.write_text(json.dumps({"coverage": {"min": 0}, "criterion": {lim[0]: lim[1]}}))
        (RegressionRule if kind == "reg" else ClassificationRule).SET_THRESHOLDS(p)
    rules = [m.make_rule(kind, c, names) for c in pool]
    pool = list(pool)
    RuleSet.STACKED_FIT = case["stacked"] == "always"
    rs = RuleSet(list(rules), stack_activation=case["stack"])
    s = {"fit": None, "held": None, "crit": None, "rcrit": None, "test": None, "released": False}
    out = []

    def xs(k):
        return m.make_xs(data[k]["rows"], names, case["sets"][k]["how"])

    def y(k):
        return m.make_y(data[k]["y"], case["sets"][k]["how_y"])

    def predictions():
        if kind == "reg":
            return [m.reg_stats(a, data[s["fit"]]["y"])["prediction"] for a in acts[s["fit"]]]
        return [m.vote(m.class_counts(a, data[s["fit"]]["y"])) for a in acts[s["fit"]]]

    def verify(what):
        f, h = s["fit"], s["held"]
        for i, r in enumerate(rules):
            a = acts[f][i]
            if kind == "reg":
                want = m.reg_stats(a, data[f]["y"])
                want.pop("coverage")
                z = want.pop("zscore")
                m.need_stats(r, want, f"{what}: rule {i}", scale=scale)
                if z != "?":
                    need(m.close(r.zscore, z, rtol=1e-6, atol=1e-6), lambda: f"{what}: zscore of rule {i} {r.zscore}, expected {z}")
            else:
                p = m.vote(m.class_counts(a, data[f]["y"]))
                need(m.same_class(r.prediction, p), lambda: f"{what}: rule {i} predicts {r.prediction!r}, expected {p!r}")
                need(r.train_set_size == len(data[f]["y"]), lambda: f"{what}: train size of rule {i} {r.train_set_size}")
            if s["released"]:
                need(r.activation is None and not r.activation_available, f"{what}: rule {i} has an activation that was released")
                need(r.nones == sum(acts[h][i]), lambda: f"{what}: rule {i} counts {r.nones} activated points")
            else:
                m.need_act(r.activation, acts[h][i], f"{what}: activation of rule {i}")
            need(m.close(r.coverage, sum(acts[h][i]) / len(acts[h][i])), lambda: f"{what}: coverage of rule {i} {r.coverage}")
            if s["rcrit"] is not None:
                w = s["rcrit"][i]
                if not (isinstance(w, str) and w == "?"):
                    need(m.close(r.criterion, w, rtol=1e-6, atol=1e-6 * scale * scale),
                         lambda: f"{what}: criterion of rule {i} is {r.criterion}, expected {w}")
        union = [1 if any(c) else 0 for c in zip(*acts[h])]
        m.need_act(rs.activation, union, f"{what}: activation of the ruleset")
        need(m.close(rs.ruleset_coverage, sum(union) / len(union)), lambda: f"{what}: coverage {rs.ruleset_coverage}")
        if case["stack"]:
            df = rs.stacked_activations
            need(df is not None and list(df.columns) == [str(r.condition) for r in rules], f"{what}: stacked columns")
            for i, r in enumerate(rules):
                m.need_act(df.iloc[:, i].values, acts[h][i], f"{what}: stacked activation of rule {i}")
        else:
            need(rs.stacked_activations is None, f"{what}: stacked activations were kept though not asked for")
        need(bool(rs.stack_activation) == case["stack"], f"{what}: stack_activation changed")
        need(rs.train_set_size == len(data[f]["y"]), lambda: f"{what}: train size {rs.train_set_size}")
        if s["test"] is not None:
            need(rs.test_set_size == s["test"], lambda: f"{what}: test size {rs.test_set_size}, expected {s['test']}")
            w = s["crit"]
            if not (isinstance(w, str) and w == "?"):
                need(np.ndim(rs.criterion) == 0 and m.close(rs.criterion, w, rtol=1e-6, atol=1e-6 * scale * scale),
                     lambda: f"{what}: criterion of the ruleset is {rs.criterion}, expected {w}")
        need([id(r) for r in rs] == [id(r) for r in rules], f"{what}: rules changed")

    for step, (op, k, z) in enumerate(case["ops"]):
        if case["stacked"] == "mixed":
            RuleSet.STACKED_FIT = z % 2 == 0
        preds = predictions() if s["fit"] is not None else None
        if op == "fit":
            dropped = rs.fit(y=y(k), xs=xs(k))
            need(dropped == [], "rules dropped without thresholds")
            if s["fit"] not in (None, k):
                out.append("refit")
            s.update(fit=k, held=k, crit=None, rcrit=None, test=None, released=False)
        elif op == "fit_none":
            rs.fit(y=y(s["fit"]))
        elif op in ("eval", "keep", "train", "w_eval", "w_keep", "w_train"):
            how = op[2:] if op.startswith("w_") else op
            if s["released"] and (how == "train" or how == "eval" and not RuleSet.STACKED_FIT):
                continue  # refused
            if how == "train":
                k = s["held"]
            live = any(any(a) and not m.isnan(p) for a, p in zip(acts[k], preds))
            if not live and kind == "cls":
                continue
            w, wl = None, [1] * len(pool)
            kw = {}
            if op.startswith("w_"):
                if not live or (kind == "cls" and RuleSet.STACKED_FIT):
                    continue
                wl = [1 + (z >> i) % 4 for i in range(len(pool))]
                kw["weights"] = pd.Series({str(r.condition): float(v) for r, v in zip(rules, wl)})
            method = "mse_norm"
            if kind == "reg" and case["method"]:
                method = kw["criterion_method"] = case["method"]
            ty = data[k]["y"]
            if lim is not None:  # the rules that the evaluation has to drop
                if kind == "reg":
                    c = [m.reg_criterion([p if x else math.nan for x in a], ty, method) for a, p in zip(acts[k], preds)]
                else:
                    c = [m.success(p, a, ty) for a, p in zip(acts[k], preds)]
                if any(isinstance(v, str) or abs(v - lim[1]) < 1e-6 for v in c):
                    continue
                gone = [i for i, v in enumerate(c) if (v > lim[1] if lim[0] == "max" else v < lim[1])]
                left = [i for i in range(len(pool)) if i not in gone]
                if not any(any(acts[k][i]) and not m.isnan(preds[i]) for i in left):
                    continue
            if how == "train":
                dropped = rs.eval(y=y(k), **kw)
            else:
                dropped = rs.eval(y=y(k), xs=xs(k), keep_new_activations=how == "keep", **kw)
            if how == "keep":
                s["held"], s["released"] = k, False
            if s["released"]:
                out.append("eval_released")
            if lim is not None:
                need([id(r) for r in dropped] == [id(rules[i]) for i in gone], lambda: f"{op}: dropped {dropped}, expected rules {gone}")
                for i in reversed(gone):
                    del rules[i], pool[i], preds[i], wl[i]
                    for a in acts:
                        del a[i]
                if gone:
                    out.append("dropped")
            if kind == "reg":
                s["rcrit"] = [m.reg_criterion([p if x else math.nan for x in a], ty, method) for a, p in zip(acts[k], preds)]
                s["crit"] = m.reg_criterion(weighted_mean(acts[k], preds, wl), ty, method)
            else:
                s["rcrit"] = [m.success(p, a, ty) for a, p in zip(acts[k], preds)]
                vec = weighted_vote(acts[k], preds, wl)
                ok = [(p, t) for p, t in zip(vec, ty) if not m.isnan(p)]
                s["crit"] = sum(1 for p, t in ok if p == t) / len(ok) if ok else math.nan
            s["test"] = len(ty)
            if k != s["fit"]:
                out.append("eval_" + how)
        elif op == "release":
            if lim is None and s["fit"] is not None:
                for r in rules:
                    _ = r.coverage, r.nones
                rs.del_activations()
                s["released"] = True
        elif op in ("predict", "predict_none"):
            k = s["held"] if op == "predict_none" else k
            if s["released"] and op == "predict_none":
                continue
            if any(any(a) and not m.isnan(p) for a, p in zip(acts[k], preds)):
                got = list(rs.predict() if op == "predict_none" else rs.predict(xs(k)))
                want = (weighted_mean if kind == "reg" else weighted_vote)(acts[k], preds, [1] * len(pool))
                need(m.same_vector(got, want, (lambda g, v: m.close(g, v, 1e-7, 1e-7 * scale)) if kind == "reg" else m.same_class),
                     lambda: f"predicts {got}, expected {want}")
        if looked_at(case["look"], step, len(case["ops"])):
            verify(op)
    verify("end")
    if len([o for o in out if o.startswith("eval")]) and len(out) >= 2:
        out.append("nt")
    return out


@st.composite
def rule_strat(draw, tier):
    d = draw(m.dims(3))
    kind = draw(st.sampled_from(["reg", "reg", "cls"]))
    classes = draw(st.sampled_from(m.CLASS_SETS))
    sets = []
    for _ in range(3):
        t = draw(m.table(d, min_n=draw(st.sampled_from([1, 4])), max_n=9, big=60))
        n = m.n_rows(t)
        y = draw(m.y_reg(n)) if kind == "reg" else {"seed": draw(st.integers(0, 10 ** 6)), "classes": classes, "n": n}
        sets.append({"table": t, "y": y, "how": draw(m.input_kind()), "how_y": draw(m.y_kind())})
    ops = [["fit", draw(st.integers(0, 2)), True]]
    for _ in range(draw(st.integers(1, 8))):
        ops.append([draw(st.sampled_from(["fit", "fit_none", "eval", "eval", "eval", "keep", "train", "train", "predict", "predict_none"])),
                    draw(st.integers(0, 2)), draw(st.sampled_from([True, True, False]))])
    return {"kind": kind, "names": draw(m.names_for(d)), "cond": draw(m.cond_spec(d, wide=True)), "sets": sets, "ops": ops, "look": draw(look()),
            "limits": draw(st.sampled_from([None, {"coverage": {"min": 0.4}}, {"coverage": {"max": 0.5}}, {"nones": {"min": 3}},
                                            {"coverage": {"min": 2}}, {"criterion": {"min": 1e9}}])),
            "method": draw(st.sampled_from([None] + m.METHODS)), "storage": draw(m.storage())}


def check_rule(case):
    """One rule, good or bad, fitted and evaluated over and over (forcing or not the computation of bad rules)."""
    m.apply_storage(case["storage"])
    kind, names, cond = case["kind"], case["names"], case["cond"]
    exp = m.expand_y if kind == "reg" else m.expand_classes
    data = [{"rows": m.rows(s["table"]), "y": exp(s["y"])} for s in case["sets"]]
    acts = [m.act(cond, dd["rows"]) for dd in data]
    scale = max([1.0] + [abs(v) for dd in data for v in dd["y"] if not isinstance(v, str)])
    r = m.make_rule(kind, cond, names)
    if case["limits"] is not None:
        p = scratch_file("limits.json")
        p.write_text(json.dumps(case["limits"]))
        type(r).SET_THRESHOLDS(p)
    fit = held = None
    crit = "?"
    out = []

    def xs(k):
        return m.make_xs(data[k]["rows"], names, case["sets"][k]["how"])

    def y(k):
        return m.make_y(data[k]["y"], case["sets"][k]["how_y"])

    for step, (op, k, force) in enumerate(case["ops"]):
        kw = {"force_if_not_good": True} if force else {}
        good = r.good
        if op == "fit":
            r.fit(y=y(k), xs=xs(k), force_if_not_good=True)
            fit = held = k
            crit = "?"
        elif op == "fit_none":
            r.fit(y=y(fit), force_if_not_good=True)
        elif op in ("eval", "keep", "train"):
            k = held if op == "train" else k
            method = "mse_norm"
            if kind == "reg" and case["method"]:
                method = kw["criterion_method"] = case["method"]
            if op == "train":
                r.eval(y=y(k), **kw)
            else:
                r.eval(y=y(k), xs=xs(k), recompute_activation=op == "keep", **kw)
            if not good and not force:
                crit = math.nan  # nothing else may change
            else:
                if op == "keep":
                    held = k
                pred = m.reg_stats(acts[fit], data[fit]["y"])["prediction"] if kind == "reg" else m.vote(
                    m.class_counts(acts[fit], data[fit]["y"]))
                if r.good or force:
                    crit = m.reg_criterion([pred if x else math.nan for x in acts[k]], data[k]["y"], method) if kind == "reg" \
                        else m.success(pred, acts[k], data[k]["y"])
                else:
                    crit = "?"
                if k != fit:
                    out.append("bad" if not good else "good")
        elif op in ("predict", "predict_none"):
            pred = m.reg_stats(acts[fit], data[fit]["y"])["prediction"] if kind == "reg" else m.vote(
                m.class_counts(acts[fit], data[fit]["y"]))
            k = held if op == "predict_none" else k
            got = list(r.predict() if op == "predict_none" else r.predict(xs(k)))
            want = [pred if x else math.nan for x in acts[k]]
            need(m.same_vector(got, want, (lambda g, v: m.close(g, v, 1e-9, 1e-9 * scale)) if kind == "reg" else (
                lambda g, v: str(g) == "nan" if m.isnan(v) else m.same_class(g, v))),
                 lambda: f"{op}: predicts {got}, expected {want}")
        if not looked_at(case["look"], step, len(case["ops"])):
            continue
        m.need_act(r.activation, acts[held], f"{op}: activation")
        need(m.close(r.coverage, sum(acts[held]) / len(acts[held])), lambda: f"{op}: coverage {r.coverage}")
        if kind == "reg":
            want = m.reg_stats(acts[fit], data[fit]["y"])
            want.pop("coverage")
            z = want.pop("zscore")
            m.need_stats(r, want, op, scale=scale)
            if z != "?":
                need(m.close(r.zscore, z, rtol=1e-6, atol=1e-6), lambda: f"{op}: zscore {r.zscore}, expected {z}")
        else:
            p = m.vote(m.class_counts(acts[fit], data[fit]["y"]))
            need(m.same_class(r.prediction, p), lambda: f"{op}: predicts {r.prediction!r}, expected {p!r}")
            need(r.train_set_size == len(data[fit]["y"]), lambda: f"{op}: train size {r.train_set_size}")
        if not (isinstance(crit, str) and crit == "?"):
            need(m.close(r.criterion, crit, rtol=1e-6, atol=1e-6 * scale * scale), lambda: f"{op}: criterion {r.criterion}, expected {crit}")
    return out + (["nt"] if "good" in out or "bad" in out else [])


LAWS = [
    Law("rule", rule_strat, check_rule, quick=1000, rule="the rule was evaluated on other data than its train set"),
    Law("life_cycle", strat, check, quick=1000, rule="evaluated on other data than the train set, and another evaluation or fit on other data"),
]
