"""P21: rules extracted from a decision tree describe the tree."""
import random
from copy import deepcopy

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from ..core import Law
from ..gen import need, scratch_file
from .. import model as m

ASSUMPTIONS = [
    "trees with one output, at least one split, and features without missing values",
    "samples lie within the given ranges, are exact in single precision and not on a threshold of the tree",
    "when no class name is given a class is its position among the classes of the tree",
]


@st.composite
def strat(draw, tier):
    d = draw(st.sampled_from([1, 1, 2, 2, 3, 5, 12]))
    n = draw(st.one_of(st.integers(4, 40 if tier == "quick" else 120), st.integers(4, 40 if tier == "quick" else 120), st.sampled_from([150, 300])))
    kind = draw(st.sampled_from(["reg", "cls"]))
    return {
        "kind": kind, "d": d, "n": n, "seed": draw(st.integers(0, 10 ** 6)), "levels": draw(st.sampled_from([3, 6, 12, 40])),
        "depth": draw(st.sampled_from([1, 2, 3, 4, 6, None])), "leaves": draw(st.sampled_from([None, None, 3, 6, 10])),
        "splitter": draw(st.sampled_from(["best", "best", "random"])), "classes": draw(st.sampled_from([
            [0, 1], [0, 1, 2], [5, 3, 9], ["b", "a"], ["x", "y", "z", "t"], [12, 3, 7, 0, 11, 5, 9, 1, 8, 2, 10, 4, 6],
            ["k%d" % i for i in (7, 3, 11, 0, 9, 2, 10, 5, 1, 8, 4, 6)]])),
        "criterion": draw(st.sampled_from(["squared_error", "absolute_error"] if kind == "reg" else ["gini", "entropy"])),
        "names": draw(st.one_of(st.none(), m.names_for(d))), "classes_names": draw(st.booleans()),
        "weights": draw(st.booleans()), "margin": draw(st.sampled_from([0, 0, 1, 0.25])),
        "range_as": draw(st.sampled_from(["list", "array"])), "samples": draw(st.integers(0, 10 ** 6)), "scale": draw(st.sampled_from([0, 0, 0, -18, -12, 20])),
        "ones": draw(st.booleans()), "stack": draw(st.booleans()), "both": draw(st.booleans()),
        "after": draw(st.sampled_from([None, "save", "fit", "copy"])), "index": draw(st.sampled_from(m.INDEX_KINDS)),
    }


def check(case):
    from sklearn.tree import DecisionTreeClassifier, DecisionTreeRegressor
    from ruleskit import RuleSet, RegressionRule, ClassificationRule
    from ruleskit.utils.rule_utils import extract_rules_from_tree

    rng = random.Random(case["seed"])
    d, n, kind = case["d"], case["n"], case["kind"]
    X = np.array([[rng.randrange(-case["levels"], case["levels"] + 1) / 4 for _ in range(d)] for _ in range(n)])
    scale = 2.0 ** case.get("scale", 0)
    kw = {"max_depth": case["depth"], "max_leaf_nodes": case["leaves"], "splitter": case["splitter"],
          "criterion": case["criterion"], "random_state": case["seed"] % 1000}
    if kind == "reg":
        y = np.array([rng.choice([-3, -1, 0, 0.5, 2, 7]) + round(x[0] * (1 if rng.random() < 0.5 else 3), 3) for x in X])
        tree = DecisionTreeRegressor(**kw)
    else:
        y = np.array([case["classes"][(int(x[0] > 0.3) + rng.randrange(3) // 2 + (rng.randrange(12) if len(case["classes"]) > 9 else 0)) % len(case["classes"])] for x in X])
        tree = DecisionTreeClassifier(**kw)
    X = X * scale
    w = np.array([rng.choice([1.0, 2.0, 0.5]) for _ in range(n)]) if case["weights"] else None
    tree.fit(X, y, sample_weight=w)
    t = tree.tree_
    if t.node_count < 3:
        return []
    names = case["names"]
    cls_names = None
    if kind == "cls" and case["classes_names"]:
        cls_names = [f"class {c}" for c in tree.classes_] if case["ones"] else list(tree.classes_)
    lo = [float(v) - case["margin"] * scale for v in X.min(axis=0)]
    hi = [float(v) + case["margin"] * scale for v in X.max(axis=0)]
    xmins, xmaxs = (lo, hi) if case["range_as"] == "list" else (np.array(lo), np.array(hi))
    keep = ([float(v) for v in xmins], [float(v) for v in xmaxs], None if names is None else list(names),
            None if cls_names is None else list(cls_names), t.value.copy(), t.threshold.copy())

    # samples: those of the tree, and others of the range; the ones on a threshold are left out
    r2 = random.Random(case["samples"])
    thr = [set() for _ in range(d)]
    for k in range(t.node_count):
        if t.children_left[k] != -1:
            thr[t.feature[k]].add(float(t.threshold[k]))
    pts = [list(x) for x in X]
    for _ in range(150):
        pts.append([min(max(r2.randrange(-8 * case["levels"], 8 * case["levels"] + 1) / 32 * scale, a), b) for a, b in zip(lo, hi)])
    for f in range(d):  # close to the thresholds, on both sides
        for v in sorted(thr[f])[:6]:
            for e in (-scale / 64, scale / 64):
                q = list(r2.choice(pts))
                q[f] = min(max(float(np.float32(v + e)), lo[f]), hi[f])
                pts.append(q)
    pts = [q for q in pts if not any(v in s or float(np.float32(v)) != v for v, s in zip(q, thr))]
    if not pts:
        return []
    S = np.array(pts)
    path = tree.decision_path(S).toarray()
    leaves = tree.apply(S)

    def prediction(node):
        if kind == "reg":
            return float(t.value[node][0][0])
        i = int(np.argmax(t.value[node][0]))
        return cls_names[i] if cls_names is not None else i

    out = [kind]
    for get_leaf in ((True, False) if case["both"] else (case["ones"],)):
        args = {"get_leaf": get_leaf, "stack_activation": case["stack"]}
        if names is not None:
            args["features_names"] = names
        if cls_names is not None:
            args["classes_names"] = cls_names
        rs = extract_rules_from_tree(tree, xmins, xmaxs, **args)
        need(isinstance(rs, RuleSet), lambda: f"extraction gave a {type(rs)}")
        need(rs.rule_type is (RegressionRule if kind == "reg" else ClassificationRule), lambda: f"rules of type {rs.rule_type}")
        nodes = [k for k in range(t.node_count) if (t.children_left[k] == -1 if get_leaf else k != 0)]
        need(len(rs) == len(nodes), lambda: f"{len(rs)} rules for {len(nodes)} nodes")
        got = [tuple(int(v) for v in r.condition.evaluate(S)) for r in rs]
        if get_leaf:
            want = [tuple(int(l == k) for l in leaves) for k in nodes]
            total = [sum(c) for c in zip(*got)]
            need(all(v == 1 for v in total), lambda: f"sample {pts[total.index([v for v in total if v != 1][0])]} is covered "
                 f"{[v for v in total if v != 1][0]} times by {[str(r) for r in rs]}")
        else:
            want = [tuple(int(v) for v in path[:, k]) for k in nodes]
        left = [(a, prediction(k)) for a, k in zip(want, nodes)]
        for r, a in zip(rs, got):
            hit = None
            for i, (b, p) in enumerate(left):
                if a == b and (m.close(r.prediction, p) if kind == "reg" else m.same_class(r.prediction, p)):
                    hit = i
                    break
            need(hit is not None, lambda: f"rule {r} is active on {[pts[i] for i, v in enumerate(a) if v][:5]}..., which is not the "
                 f"samples and prediction of a node (same samples: {[p for b, p in left if b == a]})")
            left.pop(hit)
        for r in rs:
            for f, nm, a, b in zip(r.features_indexes, r.features_names, r.bmins, r.bmaxs):
                need(nm == (names[f] if names is not None else f"X_{f}"), lambda: f"feature {f} is named {nm!r}")
                need(lo[f] <= a <= b <= hi[f], lambda: f"bounds [{a}, {b}] of feature {f} go out of [{lo[f]}, {hi[f]}]")
        if kind == "reg" and get_leaf:
            # the rules as a whole predict what the tree does
            vec = list(rs.predict(S))
            need(m.same_vector(vec, list(tree.predict(S)), lambda g, v: m.close(g, v, 1e-7, 1e-7)),
                 lambda: "the leaf rules do not predict what the tree does")
        elif get_leaf:
            # The classes are positions when they have no names
            vec = list(rs.predict(S))
            want_vec = [prediction(k) for k in leaves]
            need(len(vec) == len(want_vec) and all(m.same_class(a, b) for a, b in zip(vec, want_vec)),
                 lambda: f"the leaf rules predict {vec}, the tree {want_vec}")
        # The ruleset keeps the activations together if it was asked to
        need(rs.stack_activation is case["stack"], lambda: f"stack_activation is {rs.stack_activation}")
        rs.calc_activation(S)
        m.need_act(rs.activation, [int(any(c)) for c in zip(*got)], "activation of the ruleset")
        stack = rs.stacked_activations
        need((stack is not None) is case["stack"], lambda: f"stacked activations are {stack}, stack_activation={case['stack']}")
        if stack is not None:
            for r, a in zip(rs, got):
                need([int(v) for v in stack[str(r.condition)]] == list(a), lambda: f"stacked activation of {r}")
        # In a table features go by their names, wherever their columns are
        cols = [names[f] if names is not None else f"X_{f}" for f in range(d)]
        frame = pd.DataFrame(S, columns=cols, index=m.make_index(case["index"], len(S)))[list(r2.sample(cols, d))]
        for r, a in zip(rs, got):
            need(tuple(int(v) for v in r.condition.evaluate(frame)) == a, lambda: f"{r} is active on other rows of the same table")
        shown = [(str(r.condition), r.prediction) for r in rs]
        if case["after"] == "copy":
            other = deepcopy(rs)
        elif case["after"] == "save":
            p = scratch_file("tree.csv")
            rs.save(p)
            other = RuleSet()
            other.load(p)
        else:
            other = None
        if other is not None:
            need(len(other) == len(rs), lambda: f"{len(other)} rules after {case['after']}, {len(rs)} before")
            for r, q, a in zip(rs, other, got):
                need(tuple(int(v) for v in q.condition.evaluate(S)) == a, lambda: f"{r} is active elsewhere after {case['after']}: {q}")
                need(m.close(q.prediction, r.prediction) if kind == "reg" else m.same_class(q.prediction, r.prediction),
                     lambda: f"{r} predicts {q.prediction!r} after {case['after']}")
            out.append(case["after"])
        if case["after"] == "fit":
            # On the samples the tree was made of, the rules find what the tree did
            rs.fit(y=y, xs=X)
            rows = [[float(v) for v in x] for x in X]
            on = [any(v in s for v, s in zip(x, thr)) for x in rows]
            for r in rs:
                a = r.condition.evaluate(X)
                need(m.same_vector(list(r.activation), [int(v) for v in a], lambda g, v: g == v), "activation after the fit")
                pts_y = [v for v, k in zip(y.tolist(), a) if k]
                if kind == "reg":
                    need(m.close(r.prediction, m.mean(pts_y), 1e-7, 1e-7), lambda: f"{r}, mean of {pts_y}")
                else:
                    top = max(pts_y.count(c) for c in set(pts_y))
                    need(m.same_class(r.prediction, sorted(c for c in set(pts_y) if pts_y.count(c) == top)[0]), lambda: f"{r} of {pts_y}")
            if not any(on):
                out.append("fit")
        else:
            need([(str(r.condition), r.prediction) for r in rs] == shown, "the rules changed")
        now = ([float(v) for v in xmins], [float(v) for v in xmaxs], None if names is None else list(names),
               None if cls_names is None else list(cls_names))
        need(now == keep[:4] and np.array_equal(t.value, keep[4]) and np.array_equal(t.threshold, keep[5]),
             "extraction changed its arguments")
    if t.node_count >= 7:
        out.append("nt")
    splits = [int(t.feature[k]) for k in range(t.node_count) if t.children_left[k] != -1]
    if len(set(splits)) < len(splits):
        out.append("repeated_feature")
    return out


LAWS = [Law("tree", strat, check, quick=1200, rule="the tree has at least three splits")]
