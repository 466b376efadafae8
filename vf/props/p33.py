"""P33: rules and rulesets serve any kind of condition."""
import math
from copy import deepcopy

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from ..core import Law
from ..gen import need
from .. import model as m
from .p16 import expected as weighted_mean
from .p17 import expected as weighted_vote

ASSUMPTIONS = ["all conditions of a ruleset have names of features, or none has", "rules of a ruleset have different conditions",
               "stacked weighted votes, saving and checking of duplicates (which go by bounds) are not judged"]

KINDS = ["sum", "outside", "count", "order", "never", "always"]


@st.composite
def spec(draw, d, boxes):
    how = draw(st.sampled_from(KINDS + ["box"] if boxes else KINDS))
    if how == "box":
        return dict(draw(m.cond_spec(d)), how="box")
    return {"how": how, "f": list(draw(st.permutations(range(d))))[: draw(st.integers(1, min(d, 3)))], "v": draw(st.sampled_from([-3, -1, 0, 0.5, 1, 2, 4]))}


def key(s):
    return (s["how"],) + (tuple(sorted(m.canon(s))) if s["how"] == "box" else (tuple(s["f"]), s["v"]))


@st.composite
def strat(draw, tier):
    d = draw(m.dims(3))
    named = draw(st.booleans())
    kind = draw(st.sampled_from(["reg", "reg", "cls"]))
    classes = draw(st.sampled_from(m.CLASS_SETS))
    sets = []
    for _ in range(2):
        t = draw(m.table(d, min_n=2, max_n=8, big=40))
        n = m.n_rows(t)
        y = draw(m.y_reg(n)) if kind == "reg" else {"seed": draw(st.integers(0, 10 ** 6)), "classes": classes, "n": n}
        sets.append({"table": t, "y": y, "how": draw(m.input_kind()), "how_y": draw(m.y_kind())})
    return {"kind": kind, "named": named, "bare": draw(st.sampled_from([False, False, True])), "names": draw(m.names_for(d)),
            "pool": draw(st.lists(spec(d, named), min_size=1, max_size=5, unique_by=key)), "sets": sets, "storage": draw(m.storage()),
            "stacked": draw(st.booleans()), "stack": draw(st.booleans()), "dtype": draw(st.sampled_from(["ubyte", "int64", "bool", "float64"])),
            "build": draw(st.sampled_from(["list", "append", "iadd", "sum"])), "keep": draw(st.booleans()), "given": draw(st.booleans()),
            "weights": draw(st.one_of(st.none(), st.lists(st.sampled_from([0, 0.5, 1, 2, 3]), min_size=5, max_size=5))),
            "by": draw(st.sampled_from(["coverage", "nones", "prediction"])), "reverse": draw(st.booleans())}


def met(how, values, v):
    """The conditions of this check."""
    if how == "sum":
        t = 0.0
        for x in values:
            t += x
        return t > v
    if how == "outside":
        return any(x < v or x > v + 2 for x in values)
    if how == "count":
        return sum(1 for x in values if x == x) > abs(v) % 3
    if how == "order":
        return all(not a > b for a, b in zip(values, values[1:])) and values[0] == values[0]
    return how == "always"


def classes_of(dtype, bare, named):
    """A condition as a user would write one."""
    from ruleskit import Condition

    class Own(Condition):
        def __init__(self, how, f, v, names):
            super().__init__(f)
            self.how, self.v = how, v
            if named:
                self.features_names = [names[i] for i in f]

        def evaluate(self, xs):
            if isinstance(xs, pd.DataFrame):
                cols = [xs[n] for n in self.features_names] if named else [xs.iloc[:, i] for i in self.features_indexes]
            else:
                cols = [xs[:, i] for i in self.features_indexes]
            cols = [[float(x) for x in c] for c in cols]
            return np.array([met(self.how, r, self.v) for r in zip(*cols)]).astype(dtype)

        def __and__(self, other):
            return Both(self, other)

    class Both(Condition):
        def __init__(self, a, b):
            super().__init__(sorted(set(a.features_indexes) | set(b.features_indexes)))
            self.parts = [a, b]
            if named:
                self.features_names = sorted(set(a.features_names) | set(b.features_names))

        def evaluate(self, xs):
            return (self.parts[0].evaluate(xs) * self.parts[1].evaluate(xs)).astype(dtype)

    class Full(Own):
        def __str__(self):
            return f"{self.how} of {self.features_indexes} with {self.v}"

        @property
        def to_hash(self):
            return ("c", self.how, self.v) + tuple(self.features_indexes)

        def __hash__(self):
            return hash(self.to_hash)

        def __eq__(self, other):
            return isinstance(other, Full) and self.to_hash == other.to_hash

    return Own if bare else Full


def check(case):
    from ruleskit import ClassificationRule, RegressionRule, RuleSet

    m.apply_storage(case["storage"])
    RuleSet.STACKED_FIT = case["stacked"]
    kind, names, pool, named = case["kind"], case["names"], case["pool"], case["named"]
    exp = m.expand_y if kind == "reg" else m.expand_classes
    data = [{"rows": m.rows(s["table"]), "y": exp(s["y"])} for s in case["sets"]]
    Own = classes_of(case["dtype"], case["bare"], named)
    Kind = RegressionRule if kind == "reg" else ClassificationRule
    scale = max([1.0] + [abs(v) for dd in data for v in dd["y"] if not isinstance(v, str) and not m.isnan(v)])

    def act(s, rws):
        return m.act(s, rws) if s["how"] == "box" else [int(met(s["how"], [r[i] for i in s["f"]], s["v"])) for r in rws]

    acts = [[act(s, dd["rows"]) for s in pool] for dd in data]

    def make(s):
        return Kind(m.make_condition(s, names) if s["how"] == "box" else Own(s["how"], list(s["f"]), s["v"], names))

    def xs(k):
        how = case["sets"][k]["how"]
        if named or how["kind"] == "array":
            return m.make_xs(data[k]["rows"], names, how)
        return m.as_table(data[k]["rows"], names, None, how["index"], None, how.get("ints"))  # columns go by position

    def y(k):
        return m.make_y(data[k]["y"], case["sets"][k]["how_y"])

    stats = [m.reg_stats(a, data[0]["y"]) if kind == "reg" else {"prediction": m.vote(m.class_counts(a, data[0]["y"]))} for a in acts[0]]
    preds = [s["prediction"] for s in stats]

    def need_fitted(r, i, what):
        m.need_act(r.activation, acts[0][i], f"{what}: activation of rule {i}")
        need(m.close(r.coverage, sum(acts[0][i]) / len(acts[0][i])), lambda: f"{what}: coverage of rule {i} is {r.coverage}")
        if kind == "reg":
            m.need_stats(r, {k: stats[i][k] for k in ("prediction", "std", "sign")}, f"{what}: rule {i}", scale=scale)
        else:
            need(m.same_class(r.prediction, preds[i]), lambda: f"{what}: rule {i} predicts {r.prediction!r}, expected {preds[i]!r}")

    def same(got, want):
        if kind == "reg":
            return m.same_vector(got, want, lambda g, w: m.close(g, w, 1e-9, 1e-9 * scale))
        return m.same_vector(got, want, lambda g, w: str(g) == "nan" if m.isnan(w) else m.same_class(g, w))

    # rules on their own
    for i, s in enumerate(pool):
        r = make(s)
        r.fit(y=y(0), xs=xs(0))
        need_fitted(r, i, "alone")
        m.need_act(r.evaluate_activation(xs(1)).raw, acts[1][i], f"activation of rule {i} on other rows")
        got = list(r.predict(xs(1)))
        want = [preds[i] if v else math.nan for v in acts[1][i]]
        need(same(got, want), lambda: f"rule {i} predicts {got}, expected {want}")
        need(list(r.features_indexes) == list(s["f"]) or s["how"] == "box", lambda: f"rule {i} bears on {r.features_indexes}")
        need(len(r) == len(s["f"]), lambda: f"length of rule {i}")
        need(r == r and make(s) is not r and (case["bare"] and s["how"] != "box" or r == make(s) and hash(r) == hash(make(s))), f"equality of rule {i}")
        q = make(pool[0])
        q.fit(y=y(0), xs=xs(0))
        if s["how"] != "box":
            both = r & q
            want = [a & b for a, b in zip(acts[0][i], acts[0][0])]
            m.need_act(both.activation, want, f"rule {i} and rule 0")
            m.need_act(both.evaluate_activation(xs(1)).raw, [a & b for a, b in zip(acts[1][i], acts[1][0])], f"rule {i} and rule 0, other rows")

    # as a ruleset
    rules = [make(s) for s in pool]
    if case["build"] == "list":
        rs = RuleSet(list(rules), stack_activation=case["stack"])
    elif case["build"] == "sum":
        rs = RuleSet(rules[:1], stack_activation=case["stack"])
        for r in rules[1:]:
            rs = rs + r
    else:
        rs = RuleSet(stack_activation=case["stack"])
        for r in rules:
            if case["build"] == "append":
                rs.append(r)
            else:
                rs += r

    def need_ruleset(k, what):
        need([id(r) for r in rs] == [id(r) for r in rules], lambda: f"{what}: rules {[str(r) for r in rs]}")
        feats = sorted({f for s in pool for f in s["f"]})
        need(sorted(rs.features_indexes) == feats, lambda: f"{what}: bears on {rs.features_indexes}, expected {feats}")
        need(sorted(rs.features_names) == (sorted(names[f] for f in feats) if named else []), lambda: f"{what}: features {rs.features_names}")
        count = {}
        for s in pool:
            for f in s["f"]:
                count[names[f] if named else f] = count.get(names[f] if named else f, 0) + 1
        need(dict(rs.get_features_count()) == count, lambda: f"{what}: counts features as {rs.get_features_count()}, expected {count}")
        if k is None:
            return
        want = [int(any(a[j] for a in acts[k])) for j in range(len(data[k]["rows"]))]
        m.need_act(rs.activation, want, f"{what}: activation of the ruleset")
        for i, r in enumerate(rules):
            m.need_act(r.activation, acts[k][i], f"{what}: activation of rule {i}")
        if case["stack"]:
            need(list(rs.stacked_activations.columns) == [str(r.condition) for r in rules], lambda: f"{what}: columns {list(rs.stacked_activations.columns)}")
            for i in range(len(rules)):
                m.need_act(rs.stacked_activations.iloc[:, i].values, acts[k][i], f"{what}: stacked activation of rule {i}")

    need_ruleset(None, "built")
    dropped = rs.fit(y=y(0), xs=xs(0))
    need(dropped == [], lambda: f"dropped {dropped}")
    for i, r in enumerate(rules):
        need_fitted(r, i, "in a ruleset")
        need(r in rs, f"rule {i} is not in its ruleset")
    need_ruleset(0, "fitted")
    able = kind == "reg" or any(not m.isnan(p) for p in preds)
    wl = case["weights"][: len(pool)] if case["weights"] and not (kind == "cls" and case["stacked"]) else None
    if able:
        for w in (None, wl):
            ws = w or [1.0] * len(pool)
            if w is not None and not any(v and any(a) and not m.isnan(p) for v, a, p in zip(w, acts[0], preds)):
                continue
            given = None if w is None else pd.Series({str(r.condition): v for r, v in zip(rules, w)})
            for k in (0, 1):
                if w is not None and not any(v and any(a) and not m.isnan(p) for v, a, p in zip(w, acts[k], preds)):
                    continue
                try:
                    got = list(rs.predict(xs(k) if k or case["given"] else None, weights=given))
                except ValueError:
                    need(not any(any(a) and not m.isnan(p) for a, p in zip(acts[k], preds)), "refused to predict")
                    continue
                want = (weighted_mean if kind == "reg" else weighted_vote)(acts[k], preds, ws)
                need(same(got, want), lambda: f"the ruleset predicts {got}, expected {want} (weights {w})")
        need_ruleset(0, "after predictions")
        able = kind == "reg" or any(any(a) and not m.isnan(p) for a, p in zip(acts[1], preds))
    if able:
        rs.eval(y=y(1), xs=xs(1), keep_new_activations=case["keep"])
        for i, r in enumerate(rules):
            want = m.reg_criterion([preds[i] if v else math.nan for v in acts[1][i]], data[1]["y"], "mse_norm") if kind == "reg" else \
                m.success(preds[i], acts[1][i], data[1]["y"])
            need(isinstance(want, str) or m.close(r.criterion, want, 1e-6, 1e-6 * scale * scale), lambda: f"criterion of rule {i} is {r.criterion}, expected {want}")
    held = 1 if able and case["keep"] else 0
    need_ruleset(held, "evaluated")
    # collection
    k = len(pool) // 2
    part = rs[:k]
    need([id(r) for r in part] == [id(r) for r in rules[:k]], "slice")
    if k:
        want = [int(any(a[j] for a in acts[held][:k])) for j in range(len(data[held]["rows"]))]
        m.need_act(part.activation, want, "activation of a slice")
    total = part + rs[k:]
    need({id(r) for r in total} == {id(r) for r in rules} and len(total) == len(rules), lambda: f"sum of slices: {[str(r) for r in total]}")
    if not case["bare"]:
        twin = deepcopy(rs)
        need(twin == rs and hash(twin) == hash(rs), "a deep copy is not equal")
        m.need_act(twin.activation, list(np.asarray(rs.activation)), "activation of a deep copy")
        for r, q in zip(rules, twin):
            need(q is not r and q.condition is not r.condition and q in rs, "deep copy of a rule")
            m.need_act(q.evaluate_activation(xs(0)).raw, [float(v) for v in r.evaluate_activation(xs(0)).raw], "activation by a deep copy")
    if not (case["by"] == "prediction" and (kind == "cls" or any(m.isnan(p) for p in preds))):
        vals = [getattr(r, case["by"]) for r in rules]
        order = sorted(range(len(rules)), key=lambda i: vals[i], reverse=case["reverse"])
        rs.sort(case["by"], reverse=case["reverse"])
        need([id(r) for r in rs] == [id(rules[i]) for i in order], lambda: f"sorted by {case['by']}: {[getattr(r, case['by']) for r in rs]}")
    if not all(s["how"] == "box" for s in pool):
        before = [id(r) for r in rs]
        rs.sort()  # there are no bounds to sort by, or not for every rule
        need([id(r) for r in rs] == before, "sorting without bounds")
    rs.del_activations()
    need(not any(r.activation_available for r in rules), "activations are still there")
    rs.calc_activation(xs(1))
    for i, r in enumerate(rules):
        m.need_act(r.activation, acts[1][i], f"activation of rule {i} computed again")
    out = ["named" if named else "by position", "bare" if case["bare"] else "full", case["build"]]
    if any(m.nontrivial_act(a) for a, s in zip(acts[0], pool) if s["how"] != "box"):
        out.append("nt")
    return out


LAWS = [Law("own", strat, check, quick=1500, rule="some condition of the user's is met by some of the rows only")]
