"""P15: stacked and rule-by-rule computations agree (and agree with the reference statistics)."""
import math

import numpy as np
from hypothesis import strategies as st

from ..core import Law
from ..gen import need
from .. import model as m

ASSUMPTIONS = ["rules of a ruleset have different conditions",
               "a classification ruleset is not evaluated where none of its rules is active"]


@st.composite
def strat(draw, tier):
    d = draw(m.dims(3))
    kind = draw(st.sampled_from(["reg", "cls"]))
    classes = draw(st.sampled_from(m.CLASS_SETS))
    sets = []
    missing = draw(st.sampled_from([False, False, True]))
    for _ in range(2):
        t = draw(m.table(d, min_n=draw(st.sampled_from([1, 6])), max_n=12, big=120))
        n = m.n_rows(t)
        if kind == "reg":
            y = draw(m.y_reg(n, missing=missing))
        elif n > 40:
            y = {"seed": draw(st.integers(0, 10 ** 6)), "classes": classes, "n": n}
        else:
            y = [draw(st.sampled_from(classes)) for _ in range(n)]
        sets.append({"table": t, "y": y, "how": [draw(m.input_kind()), draw(m.input_kind())],
                     "how_y": [draw(m.y_kind()), draw(m.y_kind())]})
    return {"kind": kind, "names": draw(m.names_for(d)), "pool": draw(m.conds(d, draw(st.integers(1, 3)), 6, many=True)), "sets": sets,
            "method": draw(st.sampled_from([None] + m.METHODS)), "keep": draw(st.booleans()),
            "eval_train": draw(st.booleans()), "stack": [draw(st.booleans()), draw(st.booleans())],
            "horizon": draw(st.sampled_from([None, 3])), "storage": draw(m.storage())}


def check(case):
    from ruleskit import RuleSet

    m.apply_storage(case["storage"])
    kind, names, pool = case["kind"], case["names"], case["pool"]
    exp = m.expand_y if kind == "reg" else m.expand_classes
    data = [{"rows": m.rows(s["table"]), "y": exp(s["y"])} for s in case["sets"]]
    acts = [[m.act(c, dd["rows"]) for c in pool] for dd in data]
    rulesets = []
    for k in (0, 1):
        RuleSet.STACKED_FIT = k == 1
        rs = RuleSet([m.make_rule(kind, c, names) for c in pool], stack_activation=case["stack"][k])
        kw = {"horizon": case["horizon"]} if case["horizon"] and kind == "reg" else {}
        s = case["sets"][0]
        dropped = rs.fit(y=m.make_y(data[0]["y"], s["how_y"][k]), xs=m.make_xs(data[0]["rows"], names, s["how"][k]), **kw)
        need(dropped == [], "rules dropped without thresholds")
        rulesets.append(rs)
    mode = ["rule by rule", "stacked"]
    y = data[0]["y"]
    scale = max([1.0] + ([abs(v) for v in y if v == v] if kind == "reg" else []))

    def same(g, w):
        return m.close(g, w, rtol=1e-7, atol=1e-7 * scale)

    def compare(attrs, what):
        for i in range(len(pool)):
            for k in attrs:
                g, w = getattr(rulesets[1][i], k), getattr(rulesets[0][i], k)
                ok = g == w if isinstance(w, str) and k != "prediction" else (
                    m.same_class(g, w) if isinstance(w, str) or isinstance(g, str) else same(g, w))
                if k == "zscore" and reference[i].get("zscore") == "?":
                    continue
                if k == "sign" and reference[i].get("sign") == "?":
                    continue
                if k == "criterion" and undecided[0]:
                    continue
                need(ok, lambda: f"{what}: {k} of rule {i} is {g!r} stacked, {w!r} rule by rule")

    undecided = [False]
    if kind == "reg":
        reference = [m.reg_stats(a, y, case["horizon"] or 1) for a in acts[0]]
    else:
        reference = [{"prediction": m.vote(m.class_counts(a, y)), "coverage": sum(a) / len(a), "train_set_size": len(y)}
                     for a in acts[0]]
    for k in (0, 1):
        for i, r in enumerate(rulesets[k]):
            ref = dict(reference[i])
            z = ref.pop("zscore", "?")
            if kind == "cls":
                p = ref.pop("prediction")
                need(m.same_class(r.prediction, p), lambda: f"{mode[k]}: rule {i} predicts {r.prediction!r}, expected {p!r}")
            m.need_stats(r, ref, f"{mode[k]}: rule {i}", scale=scale)
            if z != "?":
                need(m.close(r.zscore, z, rtol=1e-6, atol=1e-6), lambda: f"{mode[k]}: zscore of rule {i} {r.zscore}, expected {z}")
            m.need_act(r.activation, acts[0][i], f"{mode[k]}: activation of rule {i}")
        union = [1 if any(c) else 0 for c in zip(*acts[0])]
        m.need_act(rulesets[k].activation, union, f"{mode[k]}: activation of the ruleset")
        need(rulesets[k].train_set_size == len(y), lambda: f"{mode[k]}: train set size {rulesets[k].train_set_size}")
    compare(["prediction", "coverage", "train_set_size"] + (["std", "sign", "zscore"] if kind == "reg" else []), "fit")

    e = 0 if case["eval_train"] else 1
    live = any(any(a) and not m.isnan(ref["prediction"]) for a, ref in zip(acts[e], reference))
    out = []
    if kind == "reg" or live:
        ty = data[e]["y"]
        method = case["method"] or "mse_norm"
        kw = {"criterion_method": method} if kind == "reg" and case["method"] else {}
        for k in (0, 1):
            RuleSet.STACKED_FIT = k == 1
            s = case["sets"][e]
            if case["eval_train"]:
                rulesets[k].eval(y=m.make_y(ty, s["how_y"][k]), **kw)
            else:
                rulesets[k].eval(y=m.make_y(ty, s["how_y"][k]), xs=m.make_xs(data[e]["rows"], names, s["how"][k]),
                                 keep_new_activations=case["keep"], **kw)
        undecided[0] = kind == "reg" and "norm" in method + "norm" * (method == "aae") and m.reg_criterion(
            [0.0] * len(ty), ty, method) == "?"
        compare(["criterion", "prediction", "coverage"], "eval")
        for k in (0, 1):
            for i, r in enumerate(rulesets[k]):
                p = reference[i]["prediction"]
                if kind == "reg":
                    w = m.reg_criterion([p if x else math.nan for x in acts[e][i]], ty, method)
                else:
                    w = m.success(p, acts[e][i], ty)
                if not (isinstance(w, str) and w == "?"):
                    need(m.close(r.criterion, w, rtol=1e-6, atol=1e-6),
                         lambda: f"{mode[k]}: criterion of rule {i} is {r.criterion}, expected {w}")
        a, b = rulesets
        need(a.test_set_size == b.test_set_size == len(ty), lambda: f"test set sizes {a.test_set_size} {b.test_set_size}")
        need(a.train_set_size == b.train_set_size == len(y), "train set sizes after eval")
        if not undecided[0]:
            need(np.ndim(b.criterion) == 0 and same(a.criterion, b.criterion),
                 lambda: f"criterion of the ruleset: {a.criterion} rule by rule, {b.criterion} stacked")
        m.need_act(b.activation, list(a.activation), "activation of the ruleset after eval")
        out.append("evaluated")
    # predictions
    if any(any(a) and not m.isnan(ref["prediction"]) for a, ref in zip(acts[1], reference)) or kind == "reg":
        preds = []
        for k in (0, 1):
            RuleSet.STACKED_FIT = k == 1
            preds.append(list(rulesets[k].predict(m.make_xs(data[1]["rows"], names, case["sets"][1]["how"][k]))))
        eq = same if kind == "reg" else m.same_class
        need(m.same_vector(preds[1], preds[0], eq), lambda: f"predictions {preds[0]} rule by rule, {preds[1]} stacked")
    if sum(1 for a in acts[0] if m.nontrivial_act(a)) >= 2:
        out.append("nt")
    return out


@st.composite
def switch_strat(draw, tier):
    d = draw(m.dims(2))
    kind = draw(st.sampled_from(["reg", "reg", "cls"]))
    classes = draw(st.sampled_from(m.CLASS_SETS))
    sets = []
    for _ in range(2):
        t = draw(m.table(d, min_n=draw(st.sampled_from([1, 6])), max_n=10))
        n = m.n_rows(t)
        y = draw(m.y_reg(n, missing=False)) if kind == "reg" else [draw(st.sampled_from(classes)) for _ in range(n)]
        sets.append({"table": t, "y": y, "how": draw(m.input_kind()), "how_y": draw(m.y_kind())})
    ops = [["fit", 0, draw(st.booleans())]]
    for _ in range(draw(st.integers(1, 6))):
        ops.append([draw(st.sampled_from(["fit", "fit", "eval", "eval_xs", "eval_keep", "predict", "predict_xs", "calc", "append", "sort"])),
                    draw(st.integers(0, 1)), draw(st.booleans())])
    return {"kind": kind, "names": draw(m.names_for(d)), "pool": draw(m.conds(d, draw(st.integers(2, 3)), 5)), "sets": sets, "ops": ops,
            "stack": draw(st.booleans()), "storage": draw(m.storage()), "late": draw(st.booleans())}


def check_switch(case):
    """One ruleset changes mode from a call to the next, the other computes rule by rule all along."""
    from ruleskit import RuleSet

    m.apply_storage(case["storage"])
    kind, names = case["kind"], case["names"]
    exp = m.expand_y if kind == "reg" else m.expand_classes
    data = [{"rows": m.rows(s["table"]), "y": exp(s["y"])} for s in case["sets"]]
    pool = case["pool"][:-1] if case["late"] else case["pool"]
    both = [RuleSet([m.make_rule(kind, c, names) for c in pool], stack_activation=case["stack"] and k == 1) for k in (0, 1)]
    spare = case["pool"][-1] if case["late"] else None
    eq = (lambda g, w: m.close(g, w, rtol=1e-7, atol=1e-7)) if kind == "reg" else m.same_class
    at, out, modes = 0, [], set()  # at: rows held

    def compare(what):
        a, b = both
        need(len(a) == len(b), lambda: f"{what}: {len(a)} rules one by one, {len(b)} otherwise")
        for r, q in zip(a, b):
            need(r.condition == q.condition, lambda: f"{what}: rules in another order")
            for k in ["prediction", "coverage", "train_set_size"] + (["std"] if kind == "reg" else []):
                g, w = getattr(q, k), getattr(r, k)
                ok = m.same_class(g, w) if isinstance(w, str) or isinstance(g, str) else m.close(g, w, 1e-7, 1e-7)
                need(ok, lambda: f"{what}: {k} of {r.condition} is {w!r} rule by rule, {g!r} otherwise")
            m.need_act(q.activation, list(r.activation), f"{what}: activation of a rule")
        m.need_act(b.activation, list(a.activation), f"{what}: activation of the ruleset")
        stack = b.stacked_activations
        need((stack is not None) is case["stack"], lambda: f"{what}: stacked activations {'remain' if stack is not None else 'are lost'}")
        if stack is not None:
            need(list(stack.columns) == [str(r.condition) for r in b], lambda: f"{what}: columns {list(stack.columns)}")
            for r in a:
                need([int(v) for v in stack[str(r.condition)]] == [int(v) for v in r.activation], lambda: f"{what}: stacked activation of {r.condition}")

    for op, i, stacked in case["ops"]:
        rws, y, s = data[i]["rows"], data[i]["y"], case["sets"][i]
        results = []
        if op == "append" and spare is None or op == "predict_xs" and kind == "cls" or op == "predict" and kind == "cls":
            op = "fit"
        if op in ("eval", "eval_xs", "eval_keep") and kind == "cls":
            continue  # whether it can be evaluated depends on rows where no rule is active
        for k in (0, 1):
            RuleSet.STACKED_FIT = stacked and k == 1
            rs = both[k]
            if op == "fit":
                rs.fit(y=m.make_y(y, s["how_y"]), xs=m.make_xs(rws, names, s["how"]))
            elif op == "eval":
                rs.eval(y=m.make_y(data[at]["y"], s["how_y"]))
            elif op in ("eval_xs", "eval_keep"):
                rs.eval(y=m.make_y(y, s["how_y"]), xs=m.make_xs(rws, names, s["how"]), keep_new_activations=op == "eval_keep")
            elif op == "predict":
                results.append(list(rs.predict()))
            elif op == "predict_xs":
                results.append(list(rs.predict(m.make_xs(rws, names, s["how"]))))
            elif op == "calc":
                rs.calc_activation(m.make_xs(rws, names, s["how"]))
            elif op == "sort":
                rs.sort()
            elif op == "append":
                r = m.make_rule(kind, spare, names)
                r.fit(y=m.make_y(data[at]["y"], "array"), xs=m.make_xs(data[at]["rows"], names, s["how"]))
                rs.append(r)
        if op in ("fit", "eval_keep", "calc"):
            at = i
        if op == "append":
            spare = None
        if len(results) == 2:
            need(m.same_vector(results[1], results[0], eq), lambda: f"{op}: {results[0]} rule by rule, {results[1]} otherwise")
        modes.add(stacked)
        compare(op)
    if len(modes) == 2 and any(m.nontrivial_act(list(r.activation)) for r in both[0]):
        out.append("nt")
    return out


LAWS = [Law("switch", switch_strat, check_switch, quick=800, rule="calls were made in both modes, and some rule is partly activated at the end"),
        Law("modes", strat, check, quick=1200, rule="at least two rules are partly activated on the train set")]
