"""P20: thresholds flag exactly the bad rules, and only those are dropped."""
import json
import math

import numpy as np
from hypothesis import strategies as st

from ..core import Law
from ..gen import need, scratch_file
from .. import model as m

ASSUMPTIONS = [
    "limits are numbers, or names of attributes that are numbers (not judged until they are computed)",
    "a transformation is only asked for on values where it is defined",
    "a value that rounding could move over a limit is not judged (unless exactly representable)",
    "rules of a ruleset have different conditions, and are fitted once before being evaluated",
]

LIMITS = {
    "coverage": [0, 0.05, 0.125, 0.25, 0.3, 0.5, 0.75, 1], "nones": [0, 1, 2, 3, 5], "train_set_size": [4, 8, 16],
    "prediction": [-2, -1, 0, 0.5, 1, 2], "std": [0, 0.5, 1, 2.5], "zscore": [0, 0.2, 0.5, 1],
    "criterion": [0, 0.25, 0.5, 1, 2], "entropy": [2, 3, 4], "no_such_attribute": [0, 1], "test_set_size": [1000],
}
REFS = {"std": ["prediction", "coverage", "criterion"], "zscore": ["std", "coverage"], "prediction": ["coverage", "std", "zscore"],
        "criterion": ["prediction", "std", "coverage"], "nones": ["train_set_size", "prediction"],
        "train_set_size": ["nones"], "coverage": ["prediction", "criterion"]}
ARGS = {"coverage": ["sqrt", "exp", "int"], "prediction": ["abs"], "std": ["sqrt", "exp"], "zscore": ["sqrt"],
        "nones": ["sqrt", "int", "exp"], "train_set_size": ["log", "int"], "criterion": ["abs"], "entropy": ["log"]}
USUAL = {"coverage": [0.25, 0.5, 1 / 3, 1], "std": [0.5, 1, 2], "zscore": [0.5, 1, 2], "nones": [1, 2, 3, 4], "train_set_size": [1, 2, 3, 4, 5, 6],
         "entropy": [2, 3, 4, 5]}
FUN = {"abs": abs, "sqrt": math.sqrt, "exp": math.exp, "log": math.log, "int": int}


@st.composite
def limits(draw, kind):
    attrs = list(LIMITS) if kind == "reg" else [a for a in LIMITS if a not in ("std", "zscore")]
    out = {}
    for a in draw(st.lists(st.sampled_from(attrs + ["prediction", "coverage", "criterion"]), max_size=3, unique=True)):
        lim = {}
        what = draw(st.one_of(st.sampled_from([["min"], ["max"], ["min", "max"], ["equal"], ["different"], ["min", "different"], []]),
                              st.lists(st.sampled_from(["min", "max", "equal", "different"]), min_size=2, max_size=3, unique=True)))
        for w in what:
            refs = REFS.get(a, [])
            if kind == "cls":
                refs = [r for r in refs if r not in ("std", "zscore")]
            v = draw(st.sampled_from(LIMITS[a]))
            if w == "max" and "min" in lim and not isinstance(lim["min"], str):
                v = max(v, lim["min"])
            if w == "min" and "max" in lim and not isinstance(lim["max"], str):
                v = min(v, lim["max"])
            if refs and draw(st.integers(0, 3)) == 0:
                v = draw(st.sampled_from(refs))
            lim[w] = v
        if a in ARGS and draw(st.integers(0, 3)) == 0:
            arg = draw(st.sampled_from(ARGS[a]))
            if arg in ("sqrt", "exp", "log") and a in USUAL:
                # close to what the figures of these rules give
                for w in what:
                    if not isinstance(lim[w], str) and draw(st.integers(0, 3)):
                        lim[w] = round(FUN[arg](draw(st.sampled_from(USUAL[a]))) + draw(st.sampled_from([-0.05, 0.05, 0.3, -0.3])), 3)
                if "min" in lim and "max" in lim and not isinstance(lim["min"], str) and not isinstance(lim["max"], str) and lim["min"] > lim["max"]:
                    lim["min"], lim["max"] = lim["max"], lim["min"]
            lim = {"arg": arg, **lim} if draw(st.booleans()) else {**lim, "arg": arg}
        out[a] = lim
    return out


@st.composite
def strat(draw, tier):
    d = draw(st.integers(1, 3))
    kind = draw(st.sampled_from(["reg", "reg", "cls"]))
    sets = []
    for _ in range(2):
        n = draw(st.sampled_from([4, 8, 8, 16, 5, 7]))
        if draw(st.integers(0, 3)) == 0:
            t = {"seed": draw(st.integers(0, 10 ** 6)), "n": draw(st.sampled_from([20, 24, 40])), "d": d, "missing": True}
            n = t["n"]
        else:
            t = {"rows": [[draw(m.cell()) for _ in range(d)] for _ in range(n)]}
        if kind == "reg":
            y = draw(st.lists(st.sampled_from([-3, -2, -1, 0, 1, 2, 4, 0.5, 0.3]), min_size=n, max_size=n))
        else:
            y = draw(st.lists(st.sampled_from([0, 1, 2]), min_size=n, max_size=n))
        sets.append({"table": t, "y": y, "how": draw(m.input_kind()), "how_y": draw(m.y_kind())})
    pool = draw(m.conds(d, draw(st.integers(1, 3)), 6, many=True))
    case = {"kind": kind, "names": draw(m.names_for(d)), "sets": sets, "pool": pool,
            "global": draw(st.one_of(st.none(), limits(kind), limits(kind), limits(kind))),
            "via": draw(st.sampled_from(["base", "own"])), "file": draw(st.sampled_from(["path", "str", "missing"] + ["path"] * 4)),
            "when": draw(st.sampled_from(["before", "before", "before", "between", "swap"])), "first": draw(limits(kind)),
            "own": draw(st.one_of(st.just({}), st.dictionaries(
                st.integers(0, len(pool) - 1).map(str), limits(kind), max_size=2))),
            "evals": draw(st.lists(st.tuples(st.sampled_from(["train", "test", "keep"]), st.sampled_from([1, 1, 16, 0.25])).map(list),
                                   max_size=3)), "stack": draw(st.booleans()),
            "force": draw(st.booleans()), "storage": draw(m.storage())}
    if draw(st.integers(0, 3)) == 0:
        # limits set at, or around, the figures of one of the rules, in any order
        a = m.act(pool[draw(st.integers(0, len(pool) - 1))], m.rows(sets[0]["table"]))
        attr = draw(st.sampled_from(["nones", "coverage", "prediction" if kind == "reg" else "nones", "train_set_size"]))
        v = {"nones": sum(a), "coverage": sum(a) / len(a), "train_set_size": len(a),
             "prediction": m.reg_stats(a, [float(x) for x in sets[0]["y"]])["prediction"] if kind == "reg" else 0}[attr]
        v = 1.0 if m.isnan(v) else v
        lim = {}
        for w in draw(st.lists(st.sampled_from(["different", "min", "max", "equal", "different"]), min_size=1, max_size=3, unique=True)):
            lim[w] = v if w in ("equal", "different") else v + draw(st.sampled_from([-1, 0, 0])) if w == "min" else v + draw(st.sampled_from([1, 0, 0]))
        if attr == "coverage" and "min" in lim:
            lim["min"] = max(lim["min"], 0)
        case.update({"global": {**({"coverage": {"min": 0}} if attr != "coverage" else {}), attr: lim}, "own": {}, "when": "before", "file": "path"})
    elif draw(st.integers(0, 3)) == 0:
        # limits on the evaluation that an evaluation meets and the next one may not
        lim = {draw(st.sampled_from(["max", "max", "min"])): draw(st.sampled_from([0.25, 0.5, 1, 1.25, 2, 3]))}
        case.update({"global": {"coverage": {"min": 0}, "criterion": lim}, "own": {}, "when": "before", "file": "path",
                     "evals": draw(st.lists(st.tuples(st.sampled_from(["train", "test", "test", "keep"]),
                                                      st.sampled_from([1, 16, 0.25, 0.0625])).map(list), min_size=2, max_size=4))})
    return case


def effective(lims):
    """Limits as documented: a default minimum of 5% for the coverage."""
    lims = {k: dict(v) for k, v in lims.items()}
    lims.setdefault("coverage", {}).setdefault("min", 0.05)
    return lims


def dyadic(v):
    return v * 1024 == int(v * 1024) if not (m.isnan(v) or math.isinf(v)) else True


def fails(values, attr, lim):
    """True / False / None (not judged)."""
    if attr not in values or values[attr] is None:
        return False
    v = values[attr]
    if isinstance(v, str):
        return None
    exact = dyadic(v)
    if "arg" in lim:
        v = FUN[lim["arg"]](v)
        exact = lim["arg"] in ("abs", "int")
        if lim["arg"] == "int" and not dyadic(values[attr]):
            exact = abs(values[attr] - round(values[attr])) > 1e-9
    verdict = False
    for k in ("min", "max", "equal", "different"):
        if k not in lim:
            continue
        w, ex = lim[k], exact
        if isinstance(w, str):
            w = values.get(w)
            if w is None:  # not known yet
                continue
            if isinstance(w, str):
                verdict = None
                continue
            ex = ex and dyadic(w)
        near = not m.isnan(v) and not m.isnan(w) and m.close(v, w, rtol=1e-7, atol=1e-9)
        if near and not (ex and v == w):
            verdict = None
            continue
        bad = {"min": v < w, "max": v > w, "equal": v != w, "different": v == w}[k]
        if bad:
            return True
    return verdict


def judge(values, lims):
    """(bad?, attributes that fail, attributes that may fail)"""
    if lims is None:
        return False, set(), set()
    f = {a: fails(values, a, lim) for a, lim in lims.items()}
    sure = {a for a in f if f[a] is True}
    maybe = {a for a in f if f[a] is None}
    return (True if sure else (None if maybe else False)), sure, maybe


def check(case):
    from ruleskit import RuleSet, Rule, RegressionRule, ClassificationRule

    m.apply_storage(case["storage"])
    kind, names, pool = case["kind"], case["names"], case["pool"]
    data = [{"rows": m.rows(s["table"]), "y": [float(v) if kind == "reg" else v for v in s["y"]]} for s in case["sets"]]
    acts = [[m.act(c, dd["rows"]) for c in pool] for dd in data]
    cls = RegressionRule if kind == "reg" else ClassificationRule
    lims = None
    if case["global"] is not None:
        p = scratch_file("limits.json")
        if case["file"] == "missing":
            p = scratch_file("no_such_file.json")
        else:
            p.write_text(json.dumps(case["global"]))
            lims = effective(case["global"])

    first = effective(case["first"]) if case["when"] == "swap" else None

    def set_global():
        if case["global"] is None and first is not None:
            (Rule if case["via"] == "base" else cls).SET_THRESHOLDS(None)
        if case["global"] is not None:
            (Rule if case["via"] == "base" else cls).SET_THRESHOLDS(str(p) if case["file"] == "str" else p)

    if case["via"] == "base":
        for k in (RegressionRule, ClassificationRule):
            if "THRESHOLDS" in k.__dict__ and k.__dict__["THRESHOLDS"] is not None:
                raise AssertionError("thresholds left by another case")
    own = {int(k): effective(v) for k, v in case["own"].items()}
    for k, v in case["own"].items():
        scratch_file(f"own{k}.json").write_text(json.dumps(v))
    out, kept_by_mode = [], []
    for stacked in (False, True):
        RuleSet.STACKED_FIT = stacked
        for k in (Rule, cls):
            k.SET_THRESHOLDS(None)
        for k in (RegressionRule, ClassificationRule):
            if case["via"] == "base" and "THRESHOLDS" in k.__dict__:
                delattr(k, "THRESHOLDS")
        if case["when"] == "before":
            set_global()
        elif case["when"] == "swap":  # other thresholds, until the evaluations
            scratch_file("first.json").write_text(json.dumps(case["first"]))
            (Rule if case["via"] == "base" else cls).SET_THRESHOLDS(scratch_file("first.json"))
        rules = [m.make_rule(kind, c, names) for c in pool]
        for k in own:
            rules[k].set_thresholds(scratch_file(f"own{k}.json"))
        rs = RuleSet(rules, stack_activation=case["stack"])
        mode = "stacked" if stacked else "rule by rule"
        state = {"alive": list(range(len(pool))), "again": False}

        def verify(dropped, values, what, global_on):
            verdict = {}
            for i in state["alive"]:
                verdict[i] = judge(values[i], own.get(i, lims if global_on else first))
            must = [i for i in state["alive"] if verdict[i][0] is True]
            may = {i for i in state["alive"] if verdict[i][0] is None}
            index = {id(r): i for i, r in enumerate(rules)}
            got = [index.get(id(r), "?") for r in dropped]
            want = [i for i in state["alive"] if i in must or (i in may and i in got)]
            need(got == want, lambda: f"{mode}, {what}: dropped rules {got}, expected {want} "
                 f"(limits {lims if global_on else first}, own {own}, values {[values[i] for i in state['alive']]})")
            state["alive"] = [i for i in state["alive"] if i not in got]
            left = [index.get(id(r), "?") for r in rs.rules]
            need(left == state["alive"], lambda: f"{mode}, {what}: rules kept {left}, expected {state['alive']}")
            for i in verdict:
                need(rules[i].good is (i in state["alive"]), lambda: f"{mode}, {what}: rule {i} good={rules[i].good}")
                if rules[i].good:
                    need(rules[i].bad_because is None, lambda: f"{what}: good rule bad because {rules[i].bad_because}")
                else:
                    need(rules[i].bad_because in verdict[i][1] | verdict[i][2],
                         lambda: f"{mode}, {what}: rule {i} bad because {rules[i].bad_because}, expected {verdict[i]}")
            if got and state["alive"]:
                out.append("nt")
            if got:
                out.append("dropped_" + what)
                if state["again"]:
                    out.append("dropped_later")
                need(sorted(rs.features_names) == sorted({names[f] for i in state["alive"] for f in pool[i]["f"]}),
                     lambda: f"{mode}, {what}: features {rs.features_names} after dropping")
                need(sorted(rs.features_indexes) == sorted({f for i in state["alive"] for f in pool[i]["f"]}),
                     lambda: f"{mode}, {what}: positions {rs.features_indexes} after dropping")

        def verify_act(k, what):
            if not state["alive"]:
                need(len(rs) == 0 and (rs.activation is None or len(rs.activation) == 0), "activation of an emptied ruleset")
                return
            union = [1 if any(c) else 0 for c in zip(*[acts[k][i] for i in state["alive"]])]
            m.need_act(rs.activation, union, f"{mode}, {what}: activation")
            need(m.close(rs.ruleset_coverage, sum(union) / len(union)), f"{mode}, {what}: coverage {rs.ruleset_coverage}")
            if case["stack"]:
                df = rs.stacked_activations
                need(list(df.columns) == [str(rules[i].condition) for i in state["alive"]],
                     lambda: f"{mode}, {what}: columns {list(df.columns)}")
                for i in state["alive"]:
                    m.need_act(df[str(rules[i].condition)].values, acts[k][i], f"{mode}, {what}: column of rule {i}")
            for i in state["alive"]:
                m.need_act(rules[i].activation, acts[k][i], f"{mode}, {what}: activation of rule {i}")

        # ---------------------------------------------------------------- fit
        values = []
        for i in range(len(pool)):
            a, y = acts[0][i], data[0]["y"]
            if kind == "reg":
                v = m.reg_stats(a, y)
                v.pop("sign")
            else:
                v = {"prediction": m.vote(m.class_counts(a, y)), "coverage": sum(a) / len(a), "train_set_size": len(y)}
            v.update(nones=sum(a), entropy=2 + sum(1 for x, z in zip(a, a[1:]) if x != z))
            values.append(v)
        s = case["sets"][0]
        dropped = rs.fit(y=m.make_y(data[0]["y"], s["how_y"]), xs=m.make_xs(data[0]["rows"], names, s["how"]),
                         force_if_not_good=case["force"])
        verify(dropped, values, "fit", case["when"] == "before")
        verify_act(0, "fit")
        # ---------------------------------------------------------------- eval
        set_global()
        on = 0  # the rows that the activations are about
        for e, times in case["evals"]:
            if not state["alive"]:
                break
            k = on if e == "train" else 1
            y = [v * times for v in data[k]["y"]] if kind == "reg" else data[k]["y"][::1 if times == 1 else -1]
            new = [dict(v) for v in values]
            for i in state["alive"]:
                a, pred = acts[k][i], values[i]["prediction"]
                if kind == "reg":
                    new[i]["criterion"] = m.reg_criterion([pred if x else math.nan for x in a], y, "mse_norm")
                else:
                    new[i]["criterion"] = m.success(pred, a, y)
                if e == "keep":
                    new[i].update(coverage=sum(a) / len(a), nones=sum(a),
                                  entropy=2 + sum(1 for x, z in zip(a, a[1:]) if x != z))
            kept = [i for i in state["alive"] if judge(new[i], own.get(i, lims))[0] is False]
            unsure = any(judge(new[i], own.get(i, lims))[0] is None for i in state["alive"])
            live = any(any(acts[k][i]) and not m.isnan(values[i]["prediction"]) for i in kept)
            if kind == "reg" or live or (not kept and not unsure):
                s = case["sets"][k]
                if e == "train":
                    dropped = rs.eval(y=m.make_y(y, s["how_y"]), force_if_not_good=case["force"])
                else:
                    dropped = rs.eval(y=m.make_y(y, s["how_y"]), xs=m.make_xs(data[k]["rows"], names, s["how"]),
                                      keep_new_activations=e == "keep", force_if_not_good=case["force"])
                if e == "keep":
                    on = 1
                verify(dropped, new, "eval", True)
                verify_act(on, "eval")
                values = new
                state["again"] = True
        kept_by_mode.append(state["alive"])
    return out


VALUES = [0, 0.25, 0.5, 1, 1.5, 2, 3, 5, 10, -1, -2.5, 1e-6, 1e6, "nan"]
DOMAIN = {"sqrt": lambda v: v >= 0, "log": lambda v: v > 0, "exp": lambda v: v < 100, "int": lambda v: True, "abs": lambda v: True}


@st.composite
def one_strat(draw, tier):
    v = draw(st.sampled_from(VALUES))
    arg = draw(st.sampled_from([None, None, "abs", "sqrt", "exp", "log", "int"]))
    x = m.num(v)
    if arg and (m.isnan(x) or not DOMAIN[arg](x)):
        arg = None
    t = FUN[arg](x) if arg else x
    lim = {}
    for k in draw(st.lists(st.sampled_from(["min", "max", "equal", "different"]), min_size=0, max_size=3, unique=True)):
        how = draw(st.sampled_from(["any", "near", "near", "same", "name"]))
        if how == "name":
            lim[k] = draw(st.sampled_from(["other", "unknown"]))
        elif how == "any" or m.isnan(t):
            lim[k] = draw(st.sampled_from([u for u in VALUES if u != "nan"]))
        else:
            lim[k] = t if how == "same" else t + draw(st.sampled_from([-0.1, 0.1, 0.5, -0.5, 1e-3, -1e-3]))
    items = list(lim.items()) + ([("arg", arg)] if arg else [])
    return {"v": v, "other": draw(st.sampled_from([u for u in VALUES if u != "nan"])), "lim": [list(i) for i in draw(st.permutations(items))],
            "n": draw(st.integers(1, 60)), "attr": draw(st.sampled_from(["std", "prediction", "zscore"]))}


def check_one(case):
    """The verdict of the limits on one figure."""
    from ruleskit import RegressionRule, Rule

    for k in (Rule, RegressionRule):
        k.SET_THRESHOLDS(None)
    lim = {k: v for k, v in case["lim"]}
    names = {"other": "criterion", "unknown": "test_set_size"}
    lim = {k: names[v] if k != "arg" and isinstance(v, str) else v for k, v in lim.items()}
    p = scratch_file("one.json")
    p.write_text(json.dumps({case["attr"]: lim, "coverage": {"min": 0}}))
    value, other = m.num(case["v"]), case["other"]
    # a rule that has these figures
    cls = type("Given", (RegressionRule,), {case["attr"]: property(lambda self: value), "criterion": property(lambda self: other)})
    r = cls(m.make_condition({"f": [0], "lo": [0], "hi": [1]}, ["a"]))
    r.set_thresholds(p)
    values = {case["attr"]: m.num(case["v"]), "criterion": case["other"], "test_set_size": None}
    bad = fails(values, case["attr"], lim)
    if bad is None:
        return ["not judged"]
    r.check_thresholds(case["attr"])
    need(r.good is not bad, lambda: f"limits {lim} on {case['attr']}={case['v']} (other figure {case['other']}): good is {r.good}")
    need((r.bad_because == case["attr"]) is bad, lambda: f"bad because {r.bad_because}")
    q = cls(m.make_condition({"f": [0], "lo": [0], "hi": [1]}, ["a"]))
    q.set_thresholds(p)
    q.check_thresholds()
    need(q.good is not bad, lambda: f"limits {lim} on {case['attr']}={case['v']}, all checked: good is {q.good}")
    return ["nt"] + (["bad"] if bad else []) + (["arg " + lim["arg"]] if "arg" in lim else []) if len(lim) > ("arg" in lim) else []


@st.composite
def single_strat(draw, tier):
    d = draw(st.integers(1, 2))
    kind = draw(st.sampled_from(["reg", "cls"]))
    sets = []
    for _ in range(2):
        n = draw(st.sampled_from([4, 8, 8]))
        y = draw(st.lists(st.sampled_from([-3, -2, 0, 1, 4, 0.5] if kind == "reg" else [0, 1, 2]), min_size=n, max_size=n))
        sets.append({"table": {"rows": [[draw(m.cell()) for _ in range(d)] for _ in range(n)]}, "y": y, "how": draw(m.input_kind()),
                     "how_y": draw(m.y_kind())})
    steps = [["fit", draw(st.integers(0, 1)), draw(st.booleans())]] + draw(st.lists(st.tuples(
        st.sampled_from(["fit", "eval", "eval", "keep", "keep"]), st.integers(0, 1), st.sampled_from([False, False, True])).map(list), min_size=1, max_size=4))
    cond = draw(m.cond_spec(d, possible=True))
    least = draw(st.sampled_from([0.125, 0.25, 0.5, 0.5, 0.75]))
    covs = [sum(a) / len(a) for a in (m.act(cond, m.rows(q["table"])) for q in sets)]
    if covs[0] != covs[1] and draw(st.booleans()):
        # enough points in the first data set, not in the second one
        least, k = max(covs), covs.index(max(covs))
        steps[:1] = [["fit", k, False], [draw(st.sampled_from(["keep", "keep", "fit", "eval"])), 1 - k, draw(st.sampled_from([False, False, True]))]]
    return {"kind": kind, "names": draw(m.names_for(d)), "cond": cond, "sets": sets, "steps": steps, "least": least,
            "own": draw(st.booleans()), "storage": draw(m.storage())}


def check_single(case):
    """A rule whose coverage disqualifies it is neither fitted nor evaluated, unless forced."""
    from ruleskit import RegressionRule, Rule

    m.apply_storage(case["storage"])
    kind, names = case["kind"], case["names"]
    p = scratch_file("single.json")
    p.write_text(json.dumps({"coverage": {"min": case["least"]}}))
    for k in (Rule, RegressionRule):
        k.SET_THRESHOLDS(None)
    r = m.make_rule(kind, case["cond"], names)
    if case["own"]:
        r.set_thresholds(p)
    else:
        type(r).SET_THRESHOLDS(p)
    data = [{"rows": m.rows(s["table"]), "y": [float(v) if kind == "reg" else v for v in s["y"]]} for s in case["sets"]]
    acts = [m.act(case["cond"], dd["rows"]) for dd in data]
    bad, pred, on, out = False, m.NAN, None, []
    for op, k, force in case["steps"]:
        s, a, y = case["sets"][k], acts[k], data[k]["y"]
        args = {"y": m.make_y(y, s["how_y"]), "xs": m.make_xs(data[k]["rows"], names, s["how"]), "force_if_not_good": force}
        what = f"{op} on {a}, {y}, least coverage {case['least']}, bad before: {bad}, forced: {force}"
        low = sum(a) / len(a) < case["least"]
        if op == "fit":
            r.fit(**args)
            on, bad = k, bad or low
            if bad and not force:
                pred = m.NAN
                need(m.isnan(r.prediction), lambda: f"{what}: prediction {r.prediction}")
                if kind == "reg":
                    need(m.isnan(r.std) and m.isnan(r.zscore), lambda: f"{what}: std {r.std}, zscore {r.zscore}")
                out.append("nt")
            elif kind == "reg":
                w = m.reg_stats(a, y)
                pred = w["prediction"]
                m.need_stats(r, {q: w[q] for q in ("prediction", "std")}, what)
            else:
                pred = m.vote(m.class_counts(a, y))
                need(m.same_class(r.prediction, pred), lambda: f"{what}: predicts {r.prediction!r}, expected {pred!r}")
        else:
            r.eval(recompute_activation=op == "keep", **args)
            want = m.NAN
            if force or not bad:
                if op == "keep":
                    on, bad = k, bad or low
                if force or not bad:
                    want = "?" if m.isnan(pred) else m.reg_criterion([pred if x else m.NAN for x in a], y, "mse_norm") if kind == "reg" else m.success(pred, a, y)
            need(want == "?" or m.close(r.criterion, want, rtol=1e-6, atol=1e-9), lambda: f"{what}: criterion {r.criterion}, expected {want}")
            if bad:
                out.append("nt")
        need(r.good is not bad, lambda: f"{what}: good is {r.good}")
        m.need_act(r.activation, acts[on], f"{what}: activation")
    return out


LAWS = [Law("single", single_strat, check_single, quick=900, rule="the rule is bad at some step"),
        Law("one", one_strat, check_one, quick=1500, rule="at least one limit is set on the figure, and it can be judged"),
        Law("limits", strat, check, quick=1600, rule="some rules are dropped and some are kept by the same call")]
