"""P29: attributes that a user adds to a rule class are handled like the built-in ones."""
import json
import math

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from ..core import Law
from ..gen import need, scratch_file
from .. import model as m

ASSUMPTIONS = ["added attributes do not depend on the features",
               "rules of a ruleset have different conditions"]


@st.composite
def strat(draw, tier):
    d = draw(m.dims(3))
    sets = []
    for _ in range(2):
        t = draw(m.table(d, min_n=2, max_n=8, big=40))
        sets.append({"table": t, "y": draw(m.y_reg(m.n_rows(t), missing=False)), "how": draw(m.input_kind()), "how_y": draw(m.y_kind())})
    return {"names": draw(m.names_for(d)), "pool": draw(m.conds(d, 1, 4, many=True)), "sets": sets, "storage": draw(m.storage()),
            "mode": draw(st.sampled_from(["alone", "ruleset", "stacked"])), "stack": draw(st.booleans()),
            "factor": draw(st.sampled_from([None, 2, 0.5, "none"])), "tol": draw(st.sampled_from([None, 0.5, 3])),
            "noise": draw(st.booleans()), "sub": draw(st.booleans()), "order": draw(st.sampled_from(["last", "first"])),
            "limit": draw(st.one_of(st.none(), st.none(), st.sampled_from([["spread", "max", 5], ["hits", "min", 1], ["spread", "min", 0.5], ["double", "max", 6], ["hits", "max", 1], ["seen", "max", 2], ["seen", "min", 1],
                                                                           ["low", "min", 0], ["low", "max", 1]]))),
            "keep": draw(st.booleans()), "other": draw(st.booleans()), "method": draw(st.sampled_from([None, "mae"]))}


def classes():
    from ruleskit import RegressionRule, RuleSet

    class MyRule(RegressionRule):
        rule_index = RegressionRule.rule_index + ["spread", "hits"]
        index = RegressionRule.condition_index + rule_index
        attributes_from_train_set = RegressionRule.attributes_from_train_set + ["spread", "double"]
        attributes_from_test_set = RegressionRule.attributes_from_test_set + ["hits"]

        def __init__(self, condition=None, activation=None):
            super().__init__(condition, activation)
            self._spread = None
            self._double = None
            self._hits = None
            self._low = None
            self._seen = None
            self._calls = []

        @property
        def spread(self):
            return self._spread

        @property
        def double(self):
            return self._double

        @property
        def hits(self):
            return self._hits

        # figures set along side others
        low = property(lambda self: self._low)
        seen = property(lambda self: self._seen)

        def calc_spread(self, y, factor=1):
            self._calls.append("spread")
            v = np.asarray(y, dtype=float)[self.activation == 1]
            self._low = float(v.min()) if len(v) else 0.0
            self._spread = (v.max() - v.min()) * given(factor) if len(v) else 0.0

        def calc_double(self):
            # uses what was computed just before, and asks for no data
            self._calls.append("double")
            self._double = 2 * self.spread

        def calc_hits(self, y, activation, tol=1, **kwargs):
            self._calls.append("hits")
            if "noise" in kwargs and kwargs["noise"] != "n":
                raise AssertionError("wrong keyword")
            v = np.asarray(y, dtype=float)[activation.raw == 1]
            self._seen = len(v)
            self._hits = int(np.sum(np.abs(v - self.prediction) <= tol + 1e-9))

    class MyRuleSet(RuleSet):
        attributes_from_train_set = dict(RuleSet.attributes_from_train_set)
        attributes_from_train_set[RegressionRule] = ["train_set_size", "ytotal"]
        attributes_from_test_set = dict(RuleSet.attributes_from_test_set)
        attributes_from_test_set[RegressionRule] = ["criterion", "test_set_size", "ymean"]

        def calc_spreads(self, y, stacked_activations=None, factor=1):
            sa = self.stacked_activations if stacked_activations is None else stacked_activations
            out = {}
            for c in sa.columns:
                v = np.asarray(y, dtype=float)[sa[c].values == 1]
                out[c] = (v.max() - v.min()) * given(factor) if len(v) else 0.0
                self.named(c)._low = float(v.min()) if len(v) else 0.0
            return pd.Series(out)

        def named(self, text):
            return [r for r in self if str(r.condition) == text][0]

        def calc_doubles(self, spreads):
            return 2 * spreads

        def calc_hitss(self, y, stacked_activations, predictions, tol=1, **kwargs):
            out = {}
            for c in stacked_activations.columns:
                v = np.asarray(y, dtype=float)[stacked_activations[c].values == 1]
                out[c] = int(np.sum(np.abs(v - predictions[c]) <= tol + 1e-9))
                self.named(c)._seen = len(v)
            return pd.Series(out)

        def calc_ytotal(self, y, factor=1):
            self.ytotal = float(np.sum(np.asarray(y))) * given(factor)

        def calc_ymean(self, y, tol=1):
            self.ymean = float(np.mean(np.asarray(y))) + tol

    return MyRule, MyRuleSet


def use_other_class(y, xs, condition):
    """Another class, whose methods have the same names but ask for other arguments."""
    from ruleskit import RegressionRule

    class OtherRule(RegressionRule):
        attributes_from_train_set = ["spread"] + RegressionRule.attributes_from_train_set + ["double"]
        attributes_from_test_set = ["hits"] + RegressionRule.attributes_from_test_set

        def calc_spread(self):
            self._spread = 1

        def calc_double(self, y, times=2):
            self._double = times * len(y)

        def calc_hits(self, xs):
            self._hits = len(xs)

        spread = property(lambda self: self._spread)
        double = property(lambda self: self._double)
        hits = property(lambda self: self._hits)

    r = OtherRule(condition)
    r.fit(y=y, xs=xs, times=3)
    r.eval(y=y, xs=xs)
    need(r.spread == 1 and r.double == 3 * len(y) and r.hits == len(xs),
         lambda: f"attributes of another class: {r.spread}, {r.double}, {r.hits} for {len(y)} rows")


def given(factor):
    """None is a value like any other, and not the default."""
    return 5 if factor is None else factor


def spread(a, y, factor):
    v = [t for x, t in zip(a, y) if x]
    return (max(v) - min(v)) * factor if v else 0.0


def check(case):
    MyRule, MyRuleSet = classes()
    m.apply_storage(case["storage"])
    MyRule.COMPUTE_SUBATTRIBUTES = case["sub"]
    MyRuleSet.STACKED_FIT = case["mode"] == "stacked"
    names, pool = case["names"], case["pool"]
    data = [{"rows": m.rows(s["table"]), "y": m.expand_y(s["y"])} for s in case["sets"]]
    acts = [[m.act(c, dd["rows"]) for c in pool] for dd in data]
    lim = case["limit"]
    if lim is not None:
        p = scratch_file("thresholds.json")
        p.write_text(json.dumps({lim[0]: {lim[1]: lim[2]}, "coverage": {"min": 0}}))
        MyRule.SET_THRESHOLDS(p)
    rules = [MyRule(m.make_condition(c, names)) for c in pool]
    N = len(rules)
    if case["other"]:
        use_other_class(np.array(data[0]["y"], dtype=float), m.as_array(data[0]["rows"]), m.make_condition(pool[0], names))
    fit_kw, eval_kw = {}, {}
    if case["factor"] is not None:
        fit_kw["factor"] = None if case["factor"] == "none" else case["factor"]
    if case["tol"] is not None:
        eval_kw["tol"] = case["tol"]
    if case["noise"] and case["mode"] != "stacked":
        eval_kw["noise"] = "n"
    if case["method"]:
        eval_kw["criterion_method"] = case["method"]
    factor = given(fit_kw.get("factor", 1))
    tol = case["tol"] if case["tol"] is not None else 1

    def xs(k):
        return m.make_xs(data[k]["rows"], names, case["sets"][k]["how"])

    def y(k):
        return m.make_y(data[k]["y"], case["sets"][k]["how_y"])

    def want_train(i):
        s = spread(acts[0][i], data[0]["y"], factor)
        return s, 2 * s

    def want_hits(i):
        p = m.reg_stats(acts[0][i], data[0]["y"])["prediction"]
        return 0 if m.isnan(p) else sum(1 for x, t in zip(acts[1][i], data[1]["y"]) if x and abs(t - p) <= tol + 1e-9)

    def near_edge(i):
        """A count or a limit that a rounding error can change."""
        p = m.reg_stats(acts[0][i], data[0]["y"])["prediction"]
        edge = not m.isnan(p) and any(x and abs(abs(t - p) - tol) < 1e-6 for x, t in zip(acts[1][i], data[1]["y"]))
        s = want_train(i)
        return edge or (lim is not None and any(abs(v - lim[2]) < 1e-6 and v != lim[2] for v in s))

    if any(near_edge(i) for i in range(N)):
        return ["edge"]

    def bad(stage):
        if lim is None:
            return []
        name, how, v = lim
        out = []
        for i in range(N):
            vals = {"spread": want_train(i)[0], "double": want_train(i)[1],
                    "low": min([t for x, t in zip(acts[0][i], data[0]["y"]) if x], default=0.0)}
            if stage == "eval":
                vals["hits"] = want_hits(i)
                vals["seen"] = sum(acts[1][i])
            if name in vals and (vals[name] < v if how == "min" else vals[name] > v):
                out.append(i)
        return out

    def need_bad(stage, what):
        b = bad(stage)
        for i, r in enumerate(rules):
            need(r.good == (i not in b), lambda: f"{what}: rule {i} good: {r.good}, expected bad rules {b}")

    out = [case["mode"]]
    mode = case["mode"]
    if mode == "alone":
        for r in rules:
            r.fit(y=y(0), xs=xs(0), **fit_kw)
        alive = list(range(N))
    else:
        rs = MyRuleSet(list(rules), stack_activation=case["stack"])
        dropped = rs.fit(y=y(0), xs=xs(0), **fit_kw)
        b = bad("fit")
        need(sorted(rules.index(r) for r in dropped) == b, lambda: f"dropped {dropped}, expected rules {b}")
        alive = [i for i in range(N) if i not in b]
        need([id(r) for r in rs] == [id(rules[i]) for i in alive], lambda: "the rules kept are not the good ones")
        t = sum(data[0]["y"]) * factor
        need(m.close(rs.ytotal, t, rtol=1e-7, atol=1e-6), lambda: f"attribute of the ruleset {rs.ytotal}, expected {t}")
    need_bad("fit", "after fit")

    def need_train(what, only):
        for i in only:
            r = rules[i]
            s, dbl = want_train(i)
            st_ = m.reg_stats(acts[0][i], data[0]["y"])
            m.need_stats(r, {k: st_[k] for k in ("prediction", "std", "train_set_size")}, f"{what}: rule {i}", scale=1000)
            need(m.close(r.spread, s, rtol=1e-7, atol=1e-6), lambda: f"{what}: added attribute of rule {i} is {r.spread}, expected {s}")
            need(m.close(r.double, dbl, rtol=1e-7, atol=1e-6), lambda: f"{what}: second added attribute of rule {i} is {r.double}, expected {dbl}")

    need_train("after fit", [i for i in alive if rules[i].good])
    if mode == "alone" and lim is None:
        for i, r in enumerate(rules):
            need(r._calls == ["spread", "double"], lambda: f"methods called by fit, rule {i}: {r._calls}")
    if not alive:
        return out
    if mode == "alone":
        for i in alive:
            if rules[i].good:
                rules[i].eval(y=y(1), xs=xs(1), recompute_activation=case["keep"], **eval_kw)
    else:
        dropped = rs.eval(y=y(1), xs=xs(1), keep_new_activations=case["keep"], **eval_kw)
        gone = [i for i in bad("eval") if i in alive]
        need(sorted(rules.index(r) for r in dropped) == gone, lambda: f"dropped {dropped} by eval, expected rules {gone}")
        alive = [i for i in alive if i not in gone]
        need([id(r) for r in rs] == [id(rules[i]) for i in alive], lambda: "the rules kept by eval are not the good ones")
        t = sum(data[1]["y"]) / len(data[1]["y"]) + tol
        need(m.close(rs.ymean, t, rtol=1e-7, atol=1e-6), lambda: f"attribute of the ruleset {rs.ymean}, expected {t}")
    need_bad("eval", "after eval")
    good = [i for i in alive if rules[i].good]
    need_train("after eval", good)
    for i in good:
        h = want_hits(i)
        need(rules[i].hits == h, lambda: f"added attribute of rule {i} after eval is {rules[i].hits}, expected {h}")
        p = m.reg_stats(acts[0][i], data[0]["y"])["prediction"]
        vecs = [p if a else m.NAN for a in acts[1][i]]
        c = m.reg_criterion(vecs, data[1]["y"], case["method"] or "mse_norm")
        if c != "?":
            need(m.close(rules[i].criterion, c, rtol=1e-6, atol=1e-3), lambda: f"criterion of rule {i} is {rules[i].criterion}, expected {c}")
    if mode != "alone" and len(rs):
        df = rs.to_df(ruleset_attributes=False)
        for attr in ("spread", "hits", "prediction"):
            need(attr in df.columns, lambda: f"no column for the added attribute {attr}")
            got = list(df[attr])
            want = [str(getattr(r, attr)) for r in rs]
            need(got == want, lambda: f"column {attr} {got}, expected {want}")
    if any(m.nontrivial_act(acts[0][i]) and any(acts[1][i]) for i in good):
        out.append("nt")
    return out


@st.composite
def moved_strat(draw, tier):
    d = draw(m.dims(3))
    sets = []
    for _ in range(2):
        t = draw(m.table(d, min_n=2, max_n=8, big=40))
        sets.append({"table": t, "y": draw(m.y_reg(m.n_rows(t))), "how": draw(m.input_kind()), "how_y": draw(m.y_kind())})
    return {"names": draw(m.names_for(d)), "pool": draw(m.conds(d, 1, 4, many=True)), "sets": sets, "storage": draw(m.storage()),
            "mode": draw(st.sampled_from(["alone", "ruleset", "stacked", "stacked"])), "stack": draw(st.booleans()),
            "how": draw(st.sampled_from(["eval", "keep", "train"])), "horizon": draw(st.sampled_from([None, 2, 7])),
            "order": draw(st.sampled_from(["last", "first"]))}


def check_moved(case):
    """A class that wants its z-score and deviation from the test set."""
    from ruleskit import RegressionRule, RuleSet

    class ZRule(RegressionRule):
        attributes_from_train_set = ["train_set_size", "prediction", "sign"]
        attributes_from_test_set = ["criterion", "zscore", "std"] if case["order"] == "last" else ["std", "zscore", "criterion"]

    class ZRuleSet(RuleSet):
        pass

    m.apply_storage(case["storage"])
    ZRuleSet.STACKED_FIT = case["mode"] == "stacked"
    names, pool = case["names"], case["pool"]
    data = [{"rows": m.rows(s["table"]), "y": m.expand_y(s["y"])} for s in case["sets"]]
    acts = [[m.act(c, dd["rows"]) for c in pool] for dd in data]
    rules = [ZRule(m.make_condition(c, names)) for c in pool]

    def xs(k):
        return m.make_xs(data[k]["rows"], names, case["sets"][k]["how"])

    def y(k):
        return m.make_y(data[k]["y"], case["sets"][k]["how_y"])

    kw = {} if case["horizon"] is None else {"horizon": case["horizon"]}
    k = 0 if case["how"] == "train" else 1
    if case["mode"] == "alone":
        rs = None
        for r in rules:
            r.fit(y=y(0), xs=xs(0))
    else:
        rs = ZRuleSet(list(rules), stack_activation=case["stack"])
        rs.fit(y=y(0), xs=xs(0))
    for i, r in enumerate(rules):
        need(r.zscore is None and r.std is None, lambda: f"rule {i} after fit: zscore {r.zscore}, std {r.std}")
        w = m.reg_stats(acts[0][i], data[0]["y"])
        m.need_stats(r, {q: w[q] for q in ("prediction", "sign", "train_set_size")}, f"rule {i} after fit", scale=1000)
    if rs is None:
        for r in rules:
            if k:
                r.eval(y=y(1), xs=xs(1), recompute_activation=case["how"] == "keep", **kw)
            else:
                r.eval(y=y(0), **kw)
    elif k:
        rs.eval(y=y(1), xs=xs(1), keep_new_activations=case["how"] == "keep", **kw)
    else:
        rs.eval(y=y(0), **kw)
    ty = data[k]["y"]
    known = [v for v in ty if not m.isnan(v)]
    s0, mu, scale = (m.std0(known), m.mean(known), max(abs(v) for v in known)) if known else (0.0, 0.0, 1.0)
    for i, r in enumerate(rules):
        a = acts[k][i]
        p = m.reg_stats(acts[0][i], data[0]["y"])["prediction"]
        m.need_stats(r, {"prediction": p}, f"rule {i} after eval", scale=1000)
        want = m.reg_stats(a, ty)["std"]
        if want != "?":
            need(m.close(r.std, want, rtol=1e-7, atol=1e-7 * max(1, scale)), lambda: f"deviation of rule {i} on the test set is {r.std}, expected {want}")
        if sum(a) and not m.isnan(p) and s0 > 1e-6 * scale:
            z = abs(p - mu) / (math.sqrt((case["horizon"] or 1) / sum(a)) * s0)
            need(m.close(r.zscore, z, rtol=1e-6, atol=1e-6), lambda: f"z-score of rule {i} on the test set is {r.zscore}, expected {z}")
        else:
            need(s0 <= 1e-6 * scale or m.isnan(r.zscore), lambda: f"z-score of rule {i}, which has no point or no prediction, is {r.zscore}")
        held = k if case["how"] == "keep" else 0
        m.need_act(r.activation, acts[held][i], f"activation of rule {i}")
    return ["nt", case["mode"]] if any(m.nontrivial_act(a) for a in acts[k]) else []


LAWS = [
    Law("moved", moved_strat, check_moved, quick=600, rule="some rule is active on some of the rows evaluated only"),
    Law("added", strat, check, quick=1500, rule="a good rule is active on some of the training rows only, and on some test row"),
]
