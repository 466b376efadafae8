"""P11: a rule predicts its value exactly where its condition is met; predict and eval keep the fitted state."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

from ..core import Law
from ..gen import need, look, looked_at
from .. import model as m

ASSUMPTIONS = ["classes are integers or text other than 'nan'"]


@st.composite
def strat(draw, tier):
    d = draw(m.dims(3))
    kind = draw(st.sampled_from(["reg", "cls"]))
    classes = draw(st.sampled_from(m.CLASS_SETS))
    sets = []
    for _ in range(draw(st.integers(2, 3))):
        t = draw(m.table(d, max_n=8, big=60))
        n = m.n_rows(t)
        if kind == "reg":
            y = draw(m.y_reg(n))
        elif n > 40:
            y = {"seed": draw(st.integers(0, 10 ** 6)), "classes": classes, "n": n}
        else:
            y = [draw(st.sampled_from(classes)) for _ in range(n)]
        sets.append({"table": t, "y": y, "how": draw(m.input_kind()), "how_y": draw(m.y_kind())})
    ops = draw(st.lists(st.tuples(
        st.sampled_from(["predict", "predict", "predict_xs", "predict_xs", "eval", "eval_xs", "eval_keep"]),
        st.integers(0, len(sets) - 1), st.sampled_from(m.METHODS)).map(list), min_size=1, max_size=6))
    return {"kind": kind, "names": draw(m.names_for(d)), "cond": draw(m.cond_spec(d, wide=True)), "sets": sets,
            "ops": ops, "look": draw(look()), "storage": draw(m.storage()), "reuse": draw(st.booleans())}


def check(case):
    m.apply_storage(case["storage"])
    kind, names, cond = case["kind"], case["names"], case["cond"]
    data = []
    reuse = m.Reuse(case.get("reuse", False))
    for s in case["sets"]:
        rws = m.rows(s["table"])
        y = m.expand_y(s["y"]) if kind == "reg" else m.expand_classes(s["y"])
        if case.get("reuse") and data:  # data sets of the same shape, put in turn in the same objects
            n = len(data[0]["y"])
            rws, y, s = m.resized(rws, n), m.resized(y, n), case["sets"][0]
        data.append({"rows": rws, "y": y, "a": m.act(cond, rws), "how": s["how"], "how_y": s["how_y"]})

    def xs_of(i):
        return reuse("xs", m.make_xs(data[i]["rows"], names, data[i]["how"]))

    def y_of(i):
        return reuse("y", m.make_y(data[i]["y"], data[i]["how_y"]))

    rule = m.make_rule(kind, cond, names)
    rule.fit(y=y_of(0), xs=xs_of(0))
    a0, y0 = data[0]["a"], data[0]["y"]
    pred = m.reg_stats(a0, y0)["prediction"] if kind == "reg" else m.vote(m.class_counts(a0, y0))
    text = isinstance(pred, str)

    def same(g, w):
        if text:
            if m.isnan(w):
                return str(g) == "nan"
            return isinstance(g, str) and str(g) == w
        return m.close(g, w)

    def vec(a):
        return [pred if x else float("nan") for x in a]

    held, held_y = a0, y0
    first = rule.prediction
    stats0 = {k: getattr(rule, k) for k in ("std", "sign", "zscore") if kind == "reg"}
    out = []
    for step, (op, i, method) in enumerate(case["ops"]):
        if op == "predict":
            got = rule.predict()
            need(isinstance(got, np.ndarray), lambda: f"predict() returned {type(got)}")
            need(m.same_vector(got, vec(held), same), lambda: f"predict(): {list(got)}, expected {vec(held)}")
            got = rule.calc_prediction_vector()
            need(m.same_vector(list(got), vec(held), same),
                 lambda: f"calc_prediction_vector(): {list(got)}, expected {vec(held)}")
            if m.nontrivial_act(held):
                out.append("nt")
        elif op == "predict_xs":
            xs = xs_of(i)
            got = rule.predict(xs)
            if isinstance(xs, np.ndarray):
                need(isinstance(got, np.ndarray), lambda: f"predict(array) returned {type(got)}")
            else:
                need(isinstance(got, pd.Series), lambda: f"predict(table) returned {type(got)}")
                need(got.index.equals(xs.index), lambda: f"index {got.index}, expected {xs.index}")
            want = vec(data[i]["a"])
            need(m.same_vector(list(got), want, same), lambda: f"predict(xs): {list(got)}, expected {want}")
            if m.nontrivial_act(data[i]["a"]):
                out.append("nt")
        else:
            kw = {"criterion_method": method if kind == "reg" else "success_rate"}
            if op == "eval":
                if len(held) != len(held_y):
                    continue
                rule.eval(y=m.make_y(held_y, case["sets"][0]["how_y"]), **kw)
                a, y = held, held_y
            else:
                rule.eval(y=y_of(i), xs=xs_of(i), recompute_activation=op == "eval_keep", **kw)
                a, y = data[i]["a"], data[i]["y"]
                if op == "eval_keep":
                    held, held_y = a, y
            if kind == "reg":
                want = m.reg_criterion(vec(a), y, method)
            else:
                want = m.success(pred, a, y)
            if want != "?":
                need(m.close(rule.criterion, want, rtol=1e-7, atol=1e-7),
                     lambda: f"{op}: criterion {method} is {rule.criterion}, expected {want}")
            if sum(a):
                out.append(op)
        if not looked_at(case["look"], step, len(case["ops"])):
            continue
        need(m.close(rule.prediction, first) if not text else rule.prediction == first,
             lambda: f"{op} changed the prediction from {first} to {rule.prediction}")
        m.need_act(rule.activation, held, f"activation after {op}")
        need(m.close(rule.coverage, sum(held) / len(held)), lambda: f"coverage {rule.coverage} after {op}")
        for k, v in stats0.items():
            g = getattr(rule, k)
            need(g == v or m.close(g, v), lambda: f"{op} changed {k} from {v} to {g}")
        need(rule.train_set_size == len(y0), lambda: f"train set size {rule.train_set_size} after {op}")
    need(same(first, pred) or (m.isnan(first) and m.isnan(pred)), lambda: f"prediction {first}, expected {pred}")
    return out


LAWS = [
    Law("history", strat, check, quick=2000, rule="a prediction is made on rows where the condition is partly met",
        examples=[
            {"kind": "cls", "names": ["X_0"], "cond": {"f": [0], "lo": [0], "hi": [1]}, "storage": {
                "dtype": "str", "will_compare": False, "store_raw": False, "force_stat": False, "local": True},
             "sets": [{"table": {"rows": [[0], [1], [3]]}, "y": ["x" * 60, "x" * 60, "b"],
                       "how": {"kind": "table", "perm_seed": 0, "index": "str", "extra": None}, "how_y": "array"},
                      {"table": {"rows": [[0]]}, "y": ["b"],
                       "how": {"kind": "table", "perm_seed": 0, "index": "str", "extra": None}, "how_y": "array"}],
             "look": "always", "ops": [["predict", 0, "mse"], ["predict_xs", 0, "mse"], ["predict_xs", 1, "mse"]]},
        ]),
]
