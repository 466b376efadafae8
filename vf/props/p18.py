"""P18: saving then loading a ruleset gives back the same ruleset."""
import math

import numpy as np
from hypothesis import strategies as st

from ..core import Law
from ..gen import need, scratch_file
from .. import model as m

ASSUMPTIONS = [
    "class names are ordinary words (not the writing of a Python literal nor of a missing value)",
    "figures that were never computed (None) may come back as NaN",
    "other figures may differ by the rounding of reading a CSV (relative 1e-12)",
    "activations are not part of what is saved",
]

ODD_NAMES = ["a, b", "it's", 'say "x"', "inf", "nan", "x\ny", "[0]", "ruleset coverage", "é è", "None", "1", "", "tab\there",
             "back\\slash", "Unnamed: 0", "info", " lead", "std", "{}", "X_0", "X_1", "X_10", "#", "a;b", "-inf", "'", "\r"]
WORD_SETS = [["a", "b"], ["yes", "no"], ["b", "a", "c"], ["Zero", "one", "two"], ["two words", "three more words"],
             ["a rather long class name that goes over thirty-two characters", "a rather long class name"],
             ["été", "hiver"], ["information", "minfty"], ["comma, inside", "quote \" inside", "it's"],
             [0, 1], [0, 1, 2], [-1, 1], [3, 1, 2], [10, 9, 100]]


def names_for(d):
    return st.one_of(m.names_for(d), st.permutations(ODD_NAMES).map(lambda p: list(p)[:d]),
                     st.lists(st.text(max_size=6).filter(lambda s: "\x00" not in s and s.isprintable()), min_size=d,
                              max_size=d, unique=True))


@st.composite
def strat(draw, tier):
    d = draw(m.dims(3))
    kind = draw(st.sampled_from(["reg", "reg", "cls"]))
    classes = draw(st.sampled_from(WORD_SETS))
    sets = []
    for _ in range(2):
        t = draw(m.table(d, min_n=draw(st.sampled_from([1, 5])), max_n=10, big=60))
        n = m.n_rows(t)
        if kind == "reg":
            y = draw(m.y_reg(n))
        elif n > 40:
            y = {"seed": draw(st.integers(0, 10 ** 6)), "classes": classes, "n": n}
        else:
            y = [draw(st.sampled_from(classes)) for _ in range(n)]
        sets.append({"table": t, "y": y, "how": draw(m.input_kind())})
    pool = draw(m.conds(d, draw(st.integers(1, 3)), 6, many=True))
    for c in pool:
        if draw(st.integers(0, 4)) == 0:
            k = draw(st.integers(0, len(c["f"]) - 1))
            c["lo"][k] = draw(st.floats(-1e6, 0, allow_subnormal=True))
            c["hi"][k] = draw(st.floats(0, 1e6, allow_subnormal=True))
    seen = set()
    pool = [c for c in pool if not (m.canon(c) in seen or seen.add(m.canon(c)))]
    positions = draw(st.one_of(st.none(), st.permutations([0, 3, 7, 12, 25, 1, 2, 4, 5, 6, 8, 9, 10]).map(lambda p: list(p)[:d])))
    return {"kind": kind, "names": draw(names_for(d)), "pool": pool, "sets": sets, "positions": positions,
            "eval": draw(st.sampled_from([None, "train", "test", "keep"])), "stacked": draw(st.booleans()),
            "stack": [draw(st.booleans()), draw(st.booleans())], "path": draw(st.sampled_from(["str", "path", "own"])),
            "reader": draw(st.sampled_from([None, None, "str", "object", "python", "c"])),
            "sort": draw(st.sampled_from([None, None, "size", "nones"])), "saved_before": draw(st.booleans()),
            "numpy_bounds": draw(st.booleans()), "storage": draw(m.storage()), "overwrite": draw(st.booleans()),
            "use": [draw(st.booleans()), draw(st.booleans())]}


READERS = {None: {}, "str": {"dtype": str}, "object": {"dtype": object}, "python": {"engine": "python"}, "c": {"engine": "c"}}


class Own:
    """A path that knows how to write and read tables itself."""

    def __init__(self, path):
        self.path = path

    def write(self, df):
        df.to_csv(self.path)

    def read(self, **kwargs):
        import pandas as pd

        return pd.read_csv(self.path, **kwargs)


def near(a, b):
    return m.close(a, b, rtol=1e-12, atol=0) or (m.isnan(a) and m.isnan(b))


def figures(rs):
    out = []
    for r in rs:
        c = r.condition
        out.append({
            "type": type(r).__name__, "names": list(c.features_names), "positions": [int(i) for i in c.features_indexes],
            "bmins": [float(v) for v in c.bmins], "bmaxs": [float(v) for v in c.bmaxs], "prediction": r.prediction,
            "impossible": bool(c.impossible),
            "coverage": r.coverage, "criterion": r.criterion, "train": r.train_set_size, "test": r.test_set_size,
            **({"std": r.std, "zscore": r.zscore} if hasattr(r, "std") else {}),
        })
    return out


def whole(rs):
    return {"coverage": rs.ruleset_coverage, "criterion": rs.criterion, "train": rs.train_set_size,
            "test": rs.test_set_size}


def compare(got, want, what):
    need(len(got) == len(want), lambda: f"{what}: {len(got)} rules, expected {len(want)}")
    for i, (g, w) in enumerate(zip(got, want)):
        need(set(g) == set(w), lambda: f"{what}: rule {i} of another kind: {sorted(g)} / {sorted(w)}")
        for k in w:
            if k in ("coverage", "criterion", "std", "zscore", "train", "test"):
                ok = near(g[k], w[k]) or k in ("train", "test") and w[k] is None  # those of the ruleset then
            elif k == "prediction":
                ok = m.same_class(g[k], w[k]) if isinstance(w[k], str) or isinstance(g[k], str) else near(g[k], w[k])
            else:
                ok = g[k] == w[k]
            need(ok, lambda: f"{what}: {k} of rule {i} is {g[k]!r}, expected {w[k]!r}")


def check(case):
    from ruleskit import RuleSet, HyperrectangleCondition

    m.apply_storage(case["storage"])
    kind, names, pool = case["kind"], case["names"], case["pool"]
    exp = m.expand_y if kind == "reg" else m.expand_classes
    data = [{"rows": m.rows(s["table"]), "y": exp(s["y"])} for s in case["sets"]]
    pos = case["positions"]
    hows = [dict(s["how"], kind="table") if pos else s["how"] for s in case["sets"]]
    RuleSet.STACKED_FIT = case["stacked"]
    rules = []
    for c in pool:
        r = m.make_rule(kind, c, names, positions=pos)
        if case["numpy_bounds"]:
            cond = HyperrectangleCondition(
                features_indexes=[np.int64((pos or range(len(names)))[f]) for f in c["f"]],
                bmins=[np.float64(m.num(v)) for v in c["lo"]], bmaxs=[np.float64(m.num(v)) for v in c["hi"]],
                features_names=[names[f] for f in c["f"]])
            r = type(r)(cond)
        rules.append(r)
    rs = RuleSet(rules, stack_activation=case["stack"][0])
    rs.fit(y=np.array(data[0]["y"]), xs=m.make_xs(data[0]["rows"], names, hows[0]))
    alive = [any(m.act(c, dd["rows"]) for c in pool) for dd in data]
    acts = [[m.act(c, dd["rows"]) for c in pool] for dd in data]
    preds = [r.prediction for r in rs]
    e = case["eval"]
    if e is not None:
        k = 0 if e == "train" else 1
        if kind == "reg" or any(any(a) and not m.isnan(p) for a, p in zip(acts[k], preds)):
            if e == "train":
                rs.eval(y=np.array(data[0]["y"]))
            else:
                rs.eval(y=np.array(data[1]["y"]), xs=m.make_xs(data[1]["rows"], names, hows[1]),
                        keep_new_activations=e == "keep")
        else:
            e = None
    if case["sort"] == "size":
        rs.sort()
    elif case["sort"] == "nones":
        rs.sort("nones")
    p = scratch_file("ruleset.csv")
    q = scratch_file("again.csv")
    as_path = {"str": str, "path": lambda x: x, "own": Own}[case["path"]]
    reader = READERS[case.get("reader")]
    if case["saved_before"]:
        rs.save(as_path(q))  # rules get their names at the first saving
    before = figures(rs), whole(rs)
    acts_before = [list(r.activation) for r in rs], list(rs.activation)
    text = [str(r) for r in rs]
    rs.save(as_path(p))
    compare(figures(rs), before[0], "the saved ruleset itself")
    need(all(near(whole(rs)[k], before[1][k]) for k in before[1]), "saving changed the ruleset")
    need(([list(r.activation) for r in rs], list(rs.activation)) == acts_before, "saving changed the activations")
    need([str(r) for r in rs] == text, "saving changed the rules")

    if case["overwrite"]:
        other = RuleSet([m.make_rule(kind, {"f": [0], "lo": [-77], "hi": [77]}, names)], stack_activation=case["stack"][1])
        other.fit(y=np.array(data[0]["y"]), xs=m.make_xs(data[0]["rows"], names, dict(hows[0], kind="table")))
        loaded = other
    else:
        loaded = RuleSet(stack_activation=case["stack"][1])
    loaded.load(as_path(p), **reader)

    def verify(one, what):
        compare(figures(one), before[0], what)
        w = whole(one)
        for k in w:
            need(near(w[k], before[1][k]), lambda: f"{what}: ruleset {k} is {w[k]!r}, expected {before[1][k]!r}")
        need(list(one.to_df(ruleset_attributes=False).index) == list(rs.to_df(ruleset_attributes=False).index),
             lambda: f"{what}: names {list(one.to_df(ruleset_attributes=False).index)}")
        need(sorted(one.features_names) == sorted({n for r in rs for n in r.features_names}),
             lambda: f"{what}: features {one.features_names}")
        need(sorted(one.features_indexes) == sorted({int(n) for r in rs for n in r.features_indexes}),
             lambda: f"{what}: positions {one.features_indexes}")
        need(one.rule_type is rs.rule_type, lambda: f"{what}: rule type {one.rule_type}")
        need(one == rs, f"{what}: not equal to the saved one")

    verify(loaded, "loaded ruleset")
    RuleSet.STACKED_FIT = False
    used = alive[1] and any(any(a) and not m.isnan(r_) for a, r_ in zip(acts[1], preds))
    for i in (0, 1):
        if kind == "cls" and not any(any(a) and not m.isnan(p) for a, p in zip(acts[i], preds)):
            continue
        xs = m.make_xs(data[i]["rows"], names, hows[i])
        want, got = list(rs.predict(xs)), list(loaded.predict(xs))
        if kind == "reg":
            s = max([1.0] + [abs(v) for v in data[0]["y"]])
            eq = lambda g, w: m.close(g, w, rtol=1e-9, atol=1e-11 * s)  # noqa: E731
        else:
            eq = m.same_class
        need(m.same_vector(got, want, eq), lambda: f"loaded ruleset predicts {got}, the saved one {want}")
        for a, b in zip(loaded, rs):
            need(m.same_vector(a.predict(xs), b.predict(xs),
                               lambda g, w: m.close(g, w, rtol=1e-9, atol=1e-11) if not isinstance(w, str) else g == w),
                 "a loaded rule does not predict what the saved one does")
    loaded.save(as_path(q))
    verify(loaded, "loaded ruleset after saving it")
    again = RuleSet()
    again.load(as_path(q), **reader)
    verify(again, "ruleset loaded from the saving of a loaded one")
    # a loaded ruleset can be evaluated on other rows, keeping what it knows of the train set, just like the saved one
    if used and "use" in case:
        keep, RuleSet.STACKED_FIT = case["use"]
        keep = keep or not RuleSet.STACKED_FIT  # otherwise rules without activation refuse it
        final = RuleSet(stack_activation=case["stack"][1])
        final.load(as_path(q), **reader)
        k = len(data[1]["y"])
        for one in (rs, final):
            gone = one.eval(y=np.array(data[1]["y"]), xs=m.make_xs(data[1]["rows"], names, hows[1]), keep_new_activations=keep)
            need(gone == [] and one.test_set_size == k, lambda: f"evaluation dropped {gone}, test size {one.test_set_size}")
        sc = max([1.0] + [abs(v) for dd in data for v in dd["y"] if kind == "reg"]) ** 2
        need(m.close(final.criterion, rs.criterion, 1e-8, 1e-10 * sc),
             lambda: f"loaded ruleset evaluated: criterion {final.criterion}, that of the saved one {rs.criterion}")
        for i, (a, b) in enumerate(zip(final, rs)):
            need(m.close(a.criterion, b.criterion, 1e-8, 1e-10 * sc),
                 lambda: f"loaded rule {i} evaluated: criterion {a.criterion}, that of the saved one {b.criterion}")
            if keep:
                need(list(a.activation) == list(b.activation), f"activation of loaded rule {i}")
            else:
                need(not a.activation_available, f"loaded rule {i} kept the activation of an evaluation")
            need(near(a.coverage, b.coverage), lambda: f"coverage of loaded rule {i} after an evaluation {a.coverage}, expected {b.coverage}")
            need(m.same_class(a.prediction, b.prediction) if kind == "cls" else near(a.prediction, b.prediction),
                 lambda: f"prediction of loaded rule {i} after an evaluation {a.prediction!r}, expected {b.prediction!r}")
        need(near(final.ruleset_coverage, rs.ruleset_coverage), lambda: f"loaded ruleset evaluated: coverage {final.ruleset_coverage}, "
             f"that of the saved one {rs.ruleset_coverage}")
        need(final.train_set_size == rs.train_set_size, lambda: f"loaded ruleset evaluated: train size {final.train_set_size}")
        RuleSet.STACKED_FIT = False
    # a loaded ruleset can be fitted
    xs = m.make_xs(data[0]["rows"], names, hows[0])
    again.fit(y=np.array(data[0]["y"]), xs=xs)
    for g, w in zip(again, rs):
        need(m.same_class(g.prediction, w.prediction) if kind == "cls" else m.close(g.prediction, w.prediction, 1e-9, 1e-7),
             lambda: f"refitted loaded rule predicts {g.prediction!r}, expected {w.prediction!r}")
    out = [kind] + ([f"eval_{e}"] if e else [])
    if len(rs) > 1 and used:
        out.append("nt")
    return out


# ------------------------------------------------------------------------------------------- files over a used ruleset
@st.composite
def over_strat(draw, tier):
    d = draw(m.dims(3))
    kind = draw(st.sampled_from(["reg", "cls"]))
    classes = draw(st.sampled_from(WORD_SETS))
    t = draw(m.table(d, min_n=2, max_n=10, big=60))
    n = m.n_rows(t)
    y = draw(m.y_reg(n)) if kind == "reg" else [draw(st.sampled_from(classes)) for _ in range(n)]
    pool = draw(m.conds(d, 1, 4))
    files = [[draw(st.sampled_from(["whole", "rules", "empty", "unfitted", "custom"])), draw(st.integers(0, len(pool))),
              draw(st.sampled_from(["reg", "cls", "plain"]))] for _ in range(draw(st.integers(1, 4)))]
    return {"kind": kind, "names": draw(m.names_for(d)), "pool": pool, "table": t, "y": y, "how": draw(m.input_kind()),
            "stack": draw(st.booleans()), "files": files, "fit": draw(st.booleans()), "eval": draw(st.booleans()),
            "storage": draw(m.storage())}


def state(rs):
    out = {"rules": figures(rs) if all(hasattr(r, "criterion") for r in rs) else
           [{"names": r.features_names, "bmins": r.bmins, "bmaxs": r.bmaxs, "prediction": r.prediction} for r in rs],
           "names": sorted(rs.features_names), "positions": sorted(rs.features_indexes), "whole": whole(rs),
           "type": rs._rule_type and rs._rule_type.__name__, "activation": rs.activation is None, "available": rs.activation_available,
           "stacked": rs.stacked_activations_available, "text": str(rs), "named": [r._name for r in rs]}
    return out


def check_over(case):
    from ruleskit import RuleSet, Rule

    m.apply_storage(case["storage"])
    RuleSet.STACKED_FIT = False
    names, pool, rows = case["names"], case["pool"], m.rows(case["table"])
    y = {"reg": np.array(m.expand_y(case["y"]) if case["kind"] == "reg" else np.arange(len(rows), dtype=float)),
         "cls": np.array(case["y"] if case["kind"] == "cls" else ["a", "b"] * len(rows))[:len(rows)]}
    xs = lambda: m.make_xs(rows, names, case["how"])  # noqa: E731

    def build(kind, k, fit):
        if kind == "plain":
            return RuleSet([Rule(m.make_condition(c, names)) for c in pool[:k]])
        rs = RuleSet([m.make_rule(kind, c, names) for c in pool[:k]])
        if fit and k:
            rs.fit(y=y[kind], xs=xs())
        return rs

    used = build(case["kind"], len(pool), case["fit"])
    used.stack_activation = case["stack"]
    if case["fit"] and case["eval"] and (case["kind"] == "reg" or any(any(m.act(c, rows)) for c in pool)):
        used.eval(y=y[case["kind"]], xs=xs())
    out, changed = [], False
    for step, (how, k, kind) in enumerate(case["files"]):
        p = scratch_file(f"over{step}.csv")
        if how == "empty":
            k = 0
        rs = build(kind, k, how != "unfitted")
        if how in ("whole", "empty", "unfitted") or not k:
            rs.save(p)
        elif how == "rules":
            rs.to_df(ruleset_attributes=False).to_csv(p)
        else:
            want = ["my rule %d" % (7 * i) for i in range(k)]

            def custom(index):
                return [RuleSet.rule_to_series((i, r), index=index).rename(want[i]) for i, r in enumerate(rs)]

            df = rs.to_df(custom)
            need(list(df.index)[:k] == want, lambda: f"names of the rules in the table: {list(df.index)}")
            need([r._name for r in rs] == want, "names of the rules, after the table was made")
            df.to_csv(p)
            need(list(rs.to_df(ruleset_attributes=False).index) == want, "names of the rules in the next table")
        fresh = RuleSet(stack_activation=case["stack"])
        fresh.load(p)
        used.load(p)
        a, b = state(fresh), state(used)
        what = f"step {step} ({how}): "
        need(len(fresh) == len(rs), lambda: f"{what}{len(fresh)} rules loaded, {len(rs)} saved")
        for key in a:
            if key == "rules" and a[key] and "type" in a[key][0]:
                need(bool(b[key]) and "type" in b[key][0], f"{what}rules of another kind")
                compare(b[key], a[key], what + "loaded over a used ruleset")
            elif key == "whole":
                need(all(near(b[key][q], a[key][q]) for q in a[key]),
                     lambda: f"{what}loaded over a used ruleset: {b[key]}, into a new one: {a[key]}")
            else:
                need(repr(a[key]) == repr(b[key]), lambda: f"{what}{key} is {b[key]!r} when loaded over a used ruleset, {a[key]!r} in a new one")
        w = whole(rs) if how not in ("rules",) and k else {}
        for q in w:
            need(near(w[q], a["whole"][q]), lambda: f"{what}ruleset {q} is {a['whole'][q]!r}, expected {w[q]!r}")
        if k:
            need([r._name for r in fresh] == [r._name for r in rs], lambda: f"{what}names {[r._name for r in fresh]}")
            need(fresh == rs and used == rs, f"{what}not equal to the saved one")
        changed |= k != len(pool)
        out.append(how)
    if changed and len(rows) > 1:
        out.append("nt")
    return out


LAWS = [
    Law("round_trip", strat, check, quick=1000, rule="at least two rules, one of them active on the new rows"),
    Law("over", over_strat, check_over, quick=600, rule="a file of another number of rules was loaded over a used ruleset"),
]
