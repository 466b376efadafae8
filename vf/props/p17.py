"""P17: a classification ruleset predicts the class winning the vote of the active rules."""
import collections
import math

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from ..core import Law
from ..gen import need
from .. import model as m
from .p16 import state

ASSUMPTIONS = ["weights are positive, null or NaN, and their sums exact", "rules of a ruleset have different conditions",
               "a ruleset none of whose (weighted) rules is active anywhere may refuse to predict (ValueError)"]


@st.composite
def strat(draw, tier):
    d = draw(st.sampled_from([1, 1, 2, 3]))
    pool = draw(m.conds(d, draw(st.integers(1, 4)), 7, many=True))
    classes = draw(st.sampled_from(m.CLASS_SETS))
    sets = []
    for _ in range(2):
        t = draw(m.table(d, min_n=draw(st.sampled_from([1, 6])), max_n=12, big=100))
        n = m.n_rows(t)
        if n > 40:
            y = {"seed": draw(st.integers(0, 10 ** 6)), "classes": classes, "n": n}
        else:
            y = [draw(st.sampled_from(classes)) for _ in range(n)]
        sets.append({"table": t, "y": y, "how": draw(m.input_kind()), "how_y": draw(m.y_kind())})
    stacked = draw(st.booleans())
    w = None
    if not stacked or draw(st.booleans()):
        w = draw(st.one_of(
            st.none(), st.sampled_from(["nones", "train_set_size"]),
            st.lists(st.sampled_from([0, 0.5, 1, 1, 2, 3, 0.25, "nan", "absent"]), min_size=len(pool), max_size=len(pool)),
            st.lists(st.integers(1, 300), min_size=len(pool), max_size=len(pool))))
    return {"names": draw(m.names_for(d)), "pool": pool, "sets": sets, "weights": w, "stacked": stacked,
            "scale": draw(st.sampled_from([0, 0, 0, 0, -50, -30, -12, 10, 30])),  # a power of two: sums stay exact
            "storage": draw(m.storage()), "reuse": draw(st.booleans()), "order": draw(st.lists(st.integers(0, 1), min_size=1, max_size=3))}


def expected(acts, preds, weights):
    out = []
    for k in range(len(acts[0])):
        tot = {}
        for a, p, w in zip(acts, preds, weights):
            if a[k] and not m.isnan(p) and w and not m.isnan(w):
                tot[p] = tot.get(p, 0) + w
        best = max(tot.values(), default=0)
        win = [c for c, v in tot.items() if v == best]
        out.append(win[0] if len(win) == 1 else math.nan)
    return out


def heaviest(acts, preds, weights):
    """Vote of the active rules of greatest weight only: weighted votes of stacked rulesets are counted so."""
    out = []
    for k in range(len(acts[0])):
        voters = [(w, p) for a, p, w in zip(acts, preds, weights) if a[k] and not m.isnan(p) and w and not m.isnan(w)]
        top = max([w for w, _ in voters], default=0)
        votes = collections.Counter(p for w, p in voters if w == top)
        win = [c for c, v in votes.items() if v == max(votes.values())]
        out.append(win[0] if len(win) == 1 else math.nan)
    return out


def check(case):
    from ruleskit import RuleSet

    m.apply_storage(case["storage"])
    RuleSet.STACKED_FIT = case["stacked"]
    names, pool = case["names"], case["pool"]
    data = [{"rows": m.rows(s["table"]), "y": m.expand_classes(s["y"])} for s in case["sets"]]
    reuse = m.Reuse(case.get("reuse", False))
    if reuse.on:  # data sets of the same shape, put in turn in the same objects
        data[1] = {"rows": m.resized(data[1]["rows"], len(data[0]["rows"])), "y": None}
    acts = [[m.act(c, dd["rows"]) for c in pool] for dd in data]
    rs = RuleSet([m.make_rule("cls", c, names) for c in pool], stack_activation=case["stacked"])
    s0 = case["sets"][0]
    rs.fit(y=m.make_y(data[0]["y"], s0["how_y"]), xs=reuse("xs", m.make_xs(data[0]["rows"], names, s0["how"])))
    preds = [m.vote(m.class_counts(a, data[0]["y"])) for a in acts[0]]
    for r, p in zip(rs, preds):
        need(m.same_class(r.prediction, p), lambda: f"prediction of a rule {r.prediction!r}, expected {p!r}")
    w, weights = case["weights"], None
    if isinstance(w, str):
        weights, wl = w, [getattr(r, w) for r in rs]
    elif w is not None:
        w = [x if isinstance(x, str) else x * 2.0 ** case["scale"] for x in w]
        weights = pd.Series({str(r.condition): m.num(x) for r, x in zip(rs, w) if x != "absent"}, dtype=float)
        wl = [0 if x == "absent" else m.num(x) for x in w]
    else:
        wl = [1] * len(pool)
    before = state(rs)
    w0 = weights.copy() if isinstance(weights, pd.Series) else None
    out = []
    order = case["order"] + [case["order"][0]] + ([1, "0 again"] if reuse.on else [])
    for i in order:
        if i == "0 again":  # the rows of the fit, in the object that held the others
            i, xs = 0, reuse("xs", m.make_xs(data[0]["rows"], names, s0["how"]))
        else:
            xs = None if i == 0 else reuse("xs", m.make_xs(data[1]["rows"], names, (s0 if reuse.on else case["sets"][1])["how"]))
        want = expected(acts[i], preds, wl)
        if case["stacked"] and w is not None:
            other = heaviest(acts[i], preds, wl)
            sure = [m.same_class(a, b) for a, b in zip(want, other)]
        else:
            sure = [True] * len(want)
        try:
            got = rs.predict(xs, weights=weights) if weights is not None else rs.predict(xs)
        except ValueError:
            takes_part = any(any(a) and not m.isnan(p) and x and not m.isnan(x) for a, p, x in zip(acts[i], preds, wl))
            need(not takes_part and not (case["stacked"] and w is None), lambda: f"refused to predict, expected {want}")
            out.append("refused")
            continue
        need(isinstance(got, pd.Series), lambda: f"predict returned {type(got)}")
        need(len(got) == len(want), lambda: f"{len(got)} predictions for {len(want)} rows")
        need(list(got.index) == list(range(len(want))), lambda: f"rows of the prediction numbered {list(got.index)}")
        got_ = [g for g, ok in zip(got, sure) if ok]
        need(m.same_vector(got_, [x for x, ok in zip(want, sure) if ok], m.same_class),
             lambda: f"predicts {list(got)}, expected {want} (predictions {preds}, weights {wl})")
        for k in range(len(want)):
            voters = {p for a, p in zip(acts[i], preds) if a[k] and not m.isnan(p)}
            if len(voters) > 1:
                out.append("nt")
                if m.isnan(want[k]):
                    out.append("tie")
    need(state(rs) == before, lambda: f"predict changed the ruleset: {before} -> {state(rs)}")
    need(w0 is None or weights.equals(w0), "predict changed the weights")
    return out


@st.composite
def classes_strat(draw, tier):
    """Many classes, each having rows of its own, and rules about one or several of them."""
    k = draw(st.integers(3, 9))
    if draw(st.booleans()):
        classes = ["c%d" % draw(st.integers(0, 99)) + "abcdefghi"[i] for i in range(k)]
    else:
        classes = draw(st.permutations([0, 1, 2, 3, 5, 8, 100, -1, -7]))[:k]
    cells = list(range(k)) + [draw(st.integers(0, k - 1)) for _ in range(draw(st.integers(0, 6)))]
    sets = []
    for _ in range(2):
        order = draw(st.permutations(cells))
        y = [classes[c] if draw(st.integers(0, 9)) else draw(st.sampled_from(classes)) for c in order]
        sets.append({"table": {"rows": [[c] for c in order]}, "y": y, "how": draw(m.input_kind()), "how_y": draw(m.y_kind())})
    alone = [[c, c] for c in range(k) if draw(st.integers(0, 5))]
    wide = [sorted([draw(st.integers(-1, k)), draw(st.integers(-1, k))]) for _ in range(draw(st.integers(0, 4)))]
    spans = sorted({tuple(s) for s in alone + wide}) or [(0, k)]
    pool = draw(st.permutations([{"f": [0], "lo": [a], "hi": [b]} for a, b in spans]))
    stacked = draw(st.booleans())
    w = None
    if not stacked and draw(st.booleans()):
        w = [draw(st.sampled_from([1, 1, 2, 3, 0.5, 0, "nan", "absent"])) for _ in pool]
    return {"names": ["X_0"], "pool": pool, "sets": sets, "weights": w, "stacked": stacked, "scale": 0, "storage": draw(m.storage()),
            "order": draw(st.lists(st.integers(0, 1), min_size=1, max_size=2))}


@st.composite
def many_strat(draw, tier):
    return {"n_rules": draw(st.sampled_from([255, 256, 257, 300, 520])), "stacked": draw(st.booleans()),
            "text": draw(st.booleans()), "less": draw(st.integers(1, 40))}


def check_many(case):
    """One class is predicted by hundreds of rules, the other by a few."""
    from ruleskit import RuleSet

    RuleSet.STACKED_FIT = case["stacked"]
    n, k = case["n_rules"], case["less"]
    # rules of the first group are active on rows 0, 1, 2 and predict A; of the second on rows 0, 3, 4 and predict B
    pool = [{"f": [0], "lo": [-i - 1], "hi": [2.5]} for i in range(n)]
    pool += [{"f": [1], "lo": [-i - 1], "hi": [2.5]} for i in range(k)]
    rws = [[0.0, 0.0], [1.0, 9.0], [2.0, 9.0], [9.0, 1.0], [9.0, 2.0], [9.0, 9.0]]
    A, B = ("A", "B") if case["text"] else (0, 1)
    y = [A, A, A, B, B, A]
    rs = RuleSet([m.make_rule("cls", c, ["X_0", "X_1"]) for c in pool], stack_activation=case["stacked"])
    rs.fit(y=np.array(y), xs=np.array(rws))
    acts = [m.act(c, rws) for c in pool]
    want = expected(acts, [m.vote(m.class_counts(a, y)) for a in acts], [1] * len(pool))
    for xs in (None, np.array(rws)):
        got = rs.predict(xs)
        need(m.same_vector(got, want, m.same_class), lambda: f"{n}+{k} rules predict {list(got)}, expected {want}")
    return ["nt"]


LAWS = [
    Law("vote", strat, check, quick=1600, rule="active rules of some row predict different classes"),
    Law("classes", classes_strat, check, quick=500, rule="active rules of some row predict different classes"),
    Law("many", many_strat, check_many, quick=24, thorough=120, rule="always (hundreds of voters)"),
]
