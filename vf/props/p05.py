"""P05: a condition is met exactly on the rows inside its closed box."""
import numpy as np
from hypothesis import strategies as st

from ..core import Law
from ..gen import need
from .. import model as m

ASSUMPTIONS = ["tables of numbers with at least one row", "bounds are not NaN", "features positions are not negative"]


def snapshot(c):
    return (list(c.features_indexes), list(c.bmins), list(c.bmaxs), list(c.features_names), c.impossible)


@st.composite
def strat(draw, tier):
    d = draw(m.dims(5))
    names = draw(m.names_for(d))
    cond, table = draw(m.cond_spec(d, max_f=4, wide=draw(st.booleans()))), draw(m.table(d, big=400))
    if draw(st.integers(0, 3)) == 0 and "rows" in table:
        # rows that meet the condition but for one cell, missing, infinite or next to a bound, sides of the box being open
        for k in range(len(cond["f"])):
            side = draw(st.sampled_from(["", "", "lo", "hi", "both"]))
            for b, v in (("lo", "-inf"), ("hi", "inf")):
                if side in (b, "both"):
                    cond[b][k] = v
            if m.num(cond["lo"][k]) > m.num(cond["hi"][k]):
                cond["lo"][k], cond["hi"][k] = cond["hi"][k], cond["lo"][k]
        for row in table["rows"]:
            for k, f in enumerate(cond["f"]):
                a, b = m.num(cond["lo"][k]), m.num(cond["hi"][k])
                row[f] = a if np.isfinite(a) else b if np.isfinite(b) else 0
            k = draw(st.integers(0, len(cond["f"]) - 1))
            a, b = m.num(cond["lo"][k]), m.num(cond["hi"][k])
            v = draw(st.sampled_from(["nan", "inf", "-inf", "keep", "below", "above"]))
            if v == "below":
                v = float(np.nextafter(a, -np.inf))
            elif v == "above":
                v = float(np.nextafter(b, np.inf))
            if v != "keep":
                row[cond["f"][k]] = {np.inf: "inf", -np.inf: "-inf"}.get(v, v)
    return {"d": d, "names": names, "cond": cond, "table": table,
            "how": draw(m.input_kind()), "sortby": draw(st.sampled_from(["index", "name"])), "sort": draw(st.booleans()),
            "dtype": draw(st.sampled_from(["float", "float", "float", "int"])), "order": draw(st.sampled_from("CF"))}


def check(case):
    from ruleskit import HyperrectangleCondition, RegressionRule, RuleSet

    HyperrectangleCondition.SORT_ACCORDING_TO = case["sortby"]
    rws = m.rows(case["table"])
    if case["dtype"] == "int":
        rws = [[0 if not np.isfinite(v) or abs(v) > 1e9 else int(v) for v in r] for r in rws]
    spec, names = case["cond"], case["names"]
    c = m.make_condition(spec, names, sort=case["sort"])
    before = snapshot(c)
    want = m.act(spec, rws)
    need(c.impossible == m.impossible(spec), lambda: f"impossible is {c.impossible} for {spec}")
    arr = np.array(rws, dtype=float if case["dtype"] == "float" else int, order=case["order"])
    df = m.make_xs(rws, names, dict(case["how"], kind="table"))
    if case["dtype"] == "int":
        for col in names:
            df[col] = df[col].astype(int)
    arr0, df0 = arr.copy(), df.copy(deep=True)
    for what, xs in (("array", arr), ("table", df), ("array again", arr), ("table again", df)):
        got = c.evaluate(xs)
        m.need_act(got, want, f"evaluate on {what}")
    r = RegressionRule(c)
    for what, xs in (("array", arr), ("table", df)):
        a = r.evaluate_activation(xs)
        m.need_act(a.raw, want, f"evaluate_activation on {what}")
        need(len(a) == len(want), "length of the activation")
        m.need_act(RuleSet([r]).evaluate(xs).raw, want, f"ruleset evaluate on {what}")
    need(r.activation is None, "evaluate_activation set the activation of the rule")
    need(snapshot(c) == before, lambda: f"evaluation changed the condition: {before} -> {snapshot(c)}")
    need(np.array_equal(arr, arr0, equal_nan=arr.dtype == float), "evaluation changed the array")
    need(df.equals(df0) and list(df.columns) == list(df0.columns) and df.index.equals(df0.index),
         "evaluation changed the table")
    out = ["nt"] if m.nontrivial_act(want) else []
    if m.impossible(spec):
        out.append("impossible")
    if len(spec["f"]) > 1:
        out.append("several features")
    if any(any(not np.isfinite(r[f]) for f in spec["f"]) for r in rws):
        out.append("missing or infinite cell")
    if any(r[f] in (m.num(a), m.num(b)) for r in rws for f, a, b in zip(spec["f"], spec["lo"], spec["hi"])):
        out.append("value on a bound")
    return out


@st.composite
def absent_strat(draw, tier):
    d = draw(st.integers(2, 5))
    spec = draw(m.cond_spec(d, max_f=4))
    return {"d": d, "names": draw(m.names_for(d)), "cond": spec, "table": draw(m.table(d, max_n=5)),
            "keep": draw(st.lists(st.booleans(), min_size=d, max_size=d)), "width": draw(st.integers(0, d))}


def check_absent(case):
    rws = m.rows(case["table"])
    spec, names = case["cond"], case["names"]
    c = m.make_condition(spec, names)
    want = m.act(spec, rws)
    df = m.as_table(rws, names)
    df = df[[n for n, k in zip(names, case["keep"]) if k]]
    arr = m.as_array(rws)[:, :case["width"]]
    out = []
    for what, xs, missing in (("table", df, any(not case["keep"][f] for f in spec["f"])),
                              ("array", arr, any(f >= case["width"] for f in spec["f"]))):
        if missing and not c.impossible:
            try:
                got = c.evaluate(xs)
            except IndexError:
                out.append("nt")
                continue
            need(False, lambda: f"a feature of {c} is absent from the {what} and evaluate returned {list(got)}")
        m.need_act(c.evaluate(xs), want, f"evaluate on {what}")
    return out


@st.composite
def again_strat(draw, tier):
    d = draw(st.integers(1, 4))
    spec = draw(m.cond_spec(d, max_f=3, wide=draw(st.booleans())))
    table = draw(m.table(d, max_n=8))
    n = m.n_rows(table)
    ops = []
    for _ in range(draw(st.integers(1, 6))):
        kind = draw(st.sampled_from(["cell", "cell", "bound", "bound", "reverse", "other", "slice"]))
        if kind == "cell":
            ops.append([kind, draw(st.integers(0, n - 1)), draw(st.integers(0, d - 1)), draw(m.cell())])
        elif kind == "bound":
            ops.append([kind, draw(st.integers(0, 3)), draw(st.sampled_from(["lo", "hi"])), draw(m.bound())])
        elif kind == "slice":
            ops.append([kind, draw(st.integers(1, 3))])
        else:
            ops.append([kind])
    return {"d": d, "names": draw(m.names_for(d)), "cond": spec, "table": table, "ops": ops,
            "kind": draw(st.sampled_from(["array", "table"])), "how": draw(st.sampled_from(["condition", "rule", "ruleset"]))}


def check_again(case):
    """The same condition and the same table over and over, either being changed in place between two evaluations."""
    from ruleskit import RegressionRule, RuleSet

    spec = {k: list(v) for k, v in case["cond"].items()}
    rws = [[float(v) for v in r] for r in m.rows(case["table"])]
    names = case["names"]
    c = m.make_condition(spec, names)
    other = m.make_condition({"f": [0], "lo": ["-inf"], "hi": [0.5]}, names)
    xs = m.as_array(rws) if case["kind"] == "array" else m.as_table(rws, names)
    rule = RegressionRule(c)
    rs = RuleSet([rule])

    def evaluate(on):
        if case["how"] == "condition":
            return c.evaluate(on)
        return (rule.evaluate_activation(on) if case["how"] == "rule" else rs.evaluate(on)).raw

    seen = set()
    for op in [["first"]] + case["ops"]:
        if op[0] == "cell":
            v = m.num(op[3])
            rws[op[1]][op[2]] = v
            if case["kind"] == "array":
                xs[op[1], op[2]] = v
            else:
                xs.iloc[op[1], op[2]] = v
        elif op[0] == "bound":
            k = op[1] % len(spec["f"])
            spec[op[2]][k] = op[3]
            f = spec["f"][k]
            at = list(c.features_indexes).index(f)
            attr = "bmins" if op[2] == "lo" else "bmaxs"
            setattr(c, attr, [m.num(op[3]) if i == at else v for i, v in enumerate(getattr(c, attr))])
        elif op[0] == "reverse":
            rws.reverse()
            if case["kind"] == "array":
                xs[:] = xs[::-1].copy()
            else:
                xs.iloc[:, :] = xs.to_numpy()[::-1].copy()
        elif op[0] == "other":
            m.need_act(other.evaluate(xs), m.act({"f": [0], "lo": ["-inf"], "hi": [0.5]}, rws), "another condition")
        elif op[0] == "slice":
            m.need_act(evaluate(xs[op[1]:]) if rws[op[1]:] else [], m.act(spec, rws[op[1]:]), "some of the rows")
        want = m.act(spec, rws)
        m.need_act(evaluate(xs), want, f"after {op}")
        seen.add(tuple(want))
    return ["nt"] if len(seen) > 1 else []


LAWS = [
    Law("evaluate", strat, check, quick=2400, rule="the condition is met on some rows but not all"),
    Law("again", again_strat, check_again, quick=1200, rule="evaluations of the same condition on the same table, changed "
        "in place in between, give at least two different vectors"),
    Law("absent", absent_strat, check_absent, quick=800, rule="a feature of a possible condition is absent"),
]
