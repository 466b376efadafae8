"""P10: a classification rule predicts the most frequent class of its points."""
import numpy as np
from hypothesis import strategies as st

from ..core import Law
from ..gen import need
from .. import model as m

ASSUMPTIONS = ["classes are integers or text other than 'nan'"]


@st.composite
def strat(draw, tier):
    d = draw(m.dims(3))
    big = 300 if tier == "quick" else 3000
    t = draw(m.table(d, max_n=20, big=big))
    t2 = draw(m.table(d, max_n=8))
    classes = draw(st.sampled_from(m.CLASS_SETS))

    def y_of(n):
        if n > 40:
            return {"seed": draw(st.integers(0, 10 ** 6)), "classes": classes, "n": n}
        return [draw(st.sampled_from(classes)) for _ in range(n)]

    return {"names": draw(m.names_for(d)), "cond": draw(m.cond_spec(d, max_f=2, wide=True)), "table": t,
            "y": y_of(m.n_rows(t)), "table2": t2, "y2": y_of(m.n_rows(t2)), "how": draw(m.input_kind()),
            "how2": draw(m.input_kind()), "how_y": draw(m.y_kind()), "storage": draw(m.storage()),
            "object": draw(st.booleans()), "criterion_method": draw(st.sampled_from([None, "success_rate"]))}


def check(case):
    from ruleskit.utils import rfunctions

    m.apply_storage(case["storage"])
    rws, rws2 = m.rows(case["table"]), m.rows(case["table2"])
    y, y2 = m.expand_classes(case["y"]), m.expand_classes(case["y2"])
    a, a2 = m.act(case["cond"], rws), m.act(case["cond"], rws2)

    def conv(v):
        s = m.make_y(v, case["how_y"])
        return s.astype(object) if case["object"] else s

    rule = m.make_rule("cls", case["cond"], case["names"])
    rule.fit(y=conv(y), xs=m.make_xs(rws, case["names"], case["how"]))
    counts = m.class_counts(a, y)
    want = m.vote(counts)
    need(m.same_class(rule.prediction, want), lambda: f"predicts {rule.prediction!r}, expected {want!r}, counts {counts}")
    m.need_act(rule.activation, a, "activation after fit")
    need(m.close(rule.coverage, sum(a) / len(a)), lambda: f"coverage {rule.coverage}")
    need(rule.train_set_size == len(y), lambda: f"train set size {rule.train_set_size}")
    if counts:
        proba = rfunctions.class_probabilities(np.array(a), conv(y))
        got = {(str(c) if isinstance(want, str) else float(c)): float(p) for c, p in proba}
        need(len(proba) == len(counts) and set(got) == set(counts) and all(
            m.close(got[c], v / sum(a)) for c, v in counts.items()), lambda: f"probabilities {got}, counts {counts}")
    kw = {} if case["criterion_method"] is None else {"criterion_method": case["criterion_method"]}
    rule.eval(y=conv(y2), xs=m.make_xs(rws2, case["names"], case["how2"]), **kw)
    crit = m.success(want, a2, y2)
    need(m.close(rule.criterion, crit), lambda: f"criterion {rule.criterion}, expected {crit}")
    need(m.same_class(rule.prediction, want), "evaluation changed the prediction")
    rule.eval(y=conv(y), **kw)
    crit = m.success(want, a, y)
    need(m.close(rule.criterion, crit), lambda: f"criterion on the train set {rule.criterion}, expected {crit}")
    out = []
    if len(counts) > 1:
        out.append("nt")
        if sorted(counts.values())[-1] == sorted(counts.values())[-2]:
            out.append("tie")
    if not counts:
        out.append("no point")
    return out


@st.composite
def seeded_strat(draw, tier):
    """Many rows: proportions of classes range over several orders of magnitude."""
    classes = draw(st.sampled_from([["a", "b", "c"], [0, 1, 2], ["x", "y", "z"]]))
    n = draw(st.sampled_from([1000, 12000, 40000]))
    k = draw(st.integers(1, 9))
    k2 = draw(st.integers(0, 3))
    return {"classes": list(draw(st.permutations(classes))), "n": n, "k": k, "k2": k2, "series": draw(st.booleans())}


def check_seeded(case):
    import pandas as pd

    c = case["classes"]
    y = [c[0]] * (case["n"] - case["k"] - case["k2"]) + [c[1]] * case["k"] + [c[2]] * case["k2"]
    rule = m.make_rule("cls", {"f": [0], "lo": [0], "hi": [1]}, ["X_0"])
    xs = np.zeros((case["n"], 1))
    yy = pd.Series(y) if case["series"] else np.array(y)
    rule.fit(y=yy, xs=xs)
    need(m.same_class(rule.prediction, c[0]), lambda: f"predicts {rule.prediction!r}, expected {c[0]!r}")
    rule.eval(y=yy, xs=xs)
    need(m.close(rule.criterion, (case["n"] - case["k"] - case["k2"]) / case["n"]), lambda: f"criterion {rule.criterion}")
    return ["nt"]


@st.composite
def race_strat(draw, tier):
    """Many points, two classes (almost) as frequent."""
    return {"classes": list(draw(st.sampled_from([["a", "b", "c"], [0, 1, 2], ["x", "y", "z"], [10, 9, 100], ["b", "a", "0"]]).flatmap(st.permutations))),
            "k": draw(st.one_of(st.integers(1, 3000), st.sampled_from([127, 128, 255, 256, 2500, 5000]))),
            "more": draw(st.sampled_from([0, 1, 1, 2])), "third": draw(st.integers(0, 3)), "shuffle": draw(st.integers(0, 99)),
            "outside": draw(st.integers(0, 50)), "how_y": draw(m.y_kind()), "stacked": draw(st.booleans())}


def check_race(case):
    import random
    from ruleskit import RuleSet

    c, k = case["classes"], case["k"]
    inside = [c[0]] * (k + case["more"]) + [c[1]] * k + [c[2]] * min(case["third"], k - 1)
    pts = [(0.0, v) for v in inside] + [(5.0, c[1])] * case["outside"]
    random.Random(case["shuffle"]).shuffle(pts)
    y = [v for _, v in pts]
    xs = np.array([[x] for x, _ in pts])
    want = c[0] if case["more"] else min(c[0], c[1])
    yy = m.make_y(y, case["how_y"])
    spec = {"f": [0], "lo": [0], "hi": [1]}
    rule = m.make_rule("cls", spec, ["X_0"])
    if case["stacked"]:
        RuleSet.STACKED_FIT = True
        RuleSet([rule]).fit(y=yy, xs=xs)
    else:
        rule.fit(y=yy, xs=xs)
    need(m.same_class(rule.prediction, want), lambda: f"predicts {rule.prediction!r}, expected {want!r}: {k + case['more']} points "
         f"of {c[0]!r}, {k} of {c[1]!r}")
    rule.eval(y=yy, xs=xs)
    n = k + case["more"] if want == c[0] else k
    need(m.close(rule.criterion, n / len(inside)), lambda: f"criterion {rule.criterion}, expected {n / len(inside)}")
    return ["nt"]


LAWS = [
    Law("close_race", race_strat, check_race, quick=240, rule="always (two classes with the same number of points, or one or two more)"),
    Law("fit", strat, check, quick=2000, rule="several classes among the activated points"),
    Law("rare", seeded_strat, check_seeded, quick=60, thorough=400, rule="always (rare classes among many points)"),
]
