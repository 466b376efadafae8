"""P26: releasing activations frees their data, and nothing else."""
from pathlib import Path

import numpy as np
from hypothesis import strategies as st

from ..core import Law, scratch
from ..gen import need, look, looked_at
from .. import model as m
from .p24 import snap_rule, need_same

ASSUMPTIONS = ["rules of a ruleset have different conditions", 
               "nothing is appended to a ruleset whose own activation was released, and it is not evaluated, before the next fit"]


@st.composite
def strat(draw, tier):
    d = draw(m.dims(3))
    kind = draw(st.sampled_from(["reg", "reg", "cls"]))
    classes = draw(st.sampled_from(m.CLASS_SETS))
    sets = []
    for _ in range(2):
        t = draw(m.table(d, min_n=2, max_n=8, big=40))
        n = m.n_rows(t)
        if kind == "reg":
            y = draw(m.y_reg(n))
        elif n > 40:
            y = {"seed": draw(st.integers(0, 10 ** 6)), "classes": classes, "n": n}
        else:
            y = [draw(st.sampled_from(classes)) for _ in range(n)]
        sets.append({"table": t, "y": y, "how": draw(m.input_kind()), "how_y": draw(m.y_kind())})
    ops = []
    for _ in range(draw(st.integers(1, 8))):
        ops.append([draw(st.sampled_from(["fit", "rule", "rule", "rules", "rules", "own", "own", "stacked", "predict", "rule_fit",
                                          "rest_own", "rest_rules", "read"])), draw(st.integers(0, 5)), draw(st.integers(0, 1))])
    pool = draw(m.conds(d, 1, 4, many=True))
    return {"kind": kind, "names": draw(m.names_for(d)), "pool": pool, "sets": sets, "ops": ops, "look": draw(look()),
            "storage": draw(m.storage()), "stacked": draw(st.booleans()), "stack": draw(st.booleans()),
            "rest": draw(st.sampled_from(["slice", "rebuilt", "other"]))}


def check(case):
    from ruleskit import RuleSet

    m.apply_storage(case["storage"])
    kind, names, pool = case["kind"], case["names"], case["pool"]
    exp = m.expand_y if kind == "reg" else m.expand_classes
    data = [{"rows": m.rows(s["table"]), "y": exp(s["y"])} for s in case["sets"]]
    acts = [[m.act(c, dd["rows"]) for c in pool] for dd in data]
    RuleSet.STACKED_FIT = case["stacked"]
    N = len(pool)
    out = []

    def xs(k):
        return m.make_xs(data[k]["rows"], names, case["sets"][k]["how"])

    def y(k):
        return m.make_y(data[k]["y"], case["sets"][k]["how_y"])

    def union(k, ids):
        return [1 if any(acts[k][i][j] for i in ids) else 0 for j in range(len(data[k]["y"]))]

    rules = [m.make_rule(kind, c, names) for c in pool]
    rs = RuleSet(list(rules), stack_activation=case["stack"])
    rs.fit(y=y(0), xs=xs(0))
    # another ruleset, holding the same rules or other ones
    shares = case["rest"] != "other"
    ids = list(range(N))
    if case["rest"] == "slice":
        ids = ids[: max(1, N - 1)]
        rest = rs[: len(ids)]
    elif case["rest"] == "rebuilt":
        rest = RuleSet(list(rules))
    else:
        rest = RuleSet([m.make_rule(kind, c, names) for c in pool])
        rest.fit(y=y(0), xs=xs(0))
    # what is held: rows of which set, or None once released
    held = [0] * N
    fitted = [0] * N
    own = 0
    stack = 0 if case["stack"] else None
    rest_own, rest_held = 0, ([0] * N if not shares else None)
    rest_rows = 0

    def stats(r):
        s = snap_rule(r, act=False)
        s.pop("available")
        return s

    def verify(what):
        for i, r in enumerate(rules):
            h = held[i]
            need(r.activation_available == (h is not None), lambda: f"{what}: activation of rule {i} available: {r.activation_available}")
            if h is None:
                need(r.activation is None, lambda: f"{what}: released activation of rule {i} is {r.activation!r}")
            else:
                m.need_act(r.activation, acts[h][i], f"{what}: activation of rule {i}")
        need(rs.activation_available == (own is not None), lambda: f"{what}: own activation available: {rs.activation_available}")
        if own is None:
            need(rs.activation is None, lambda: f"{what}: released activation of the ruleset is {rs.activation!r}")
        else:
            m.need_act(rs.activation, union(own, range(N)), f"{what}: activation of the ruleset")
        if stack is None:
            need(rs.stacked_activations is None and not rs.stacked_activations_available, f"{what}: stacked activations left")
        else:
            need(rs.stacked_activations_available, f"{what}: stacked activations not available")
            for i in range(N):
                m.need_act(rs.stacked_activations.iloc[:, i].values, acts[stack][i], f"{what}: stacked activation of rule {i}")
        need(rest.activation_available == (rest_own is not None), lambda: f"{what}: activation of the other ruleset available: {rest.activation_available}")
        if rest_own is not None:
            m.need_act(rest.activation, union(rest_own, ids), f"{what}: activation of the other ruleset")
        if not shares:
            for i, r in enumerate(rest):
                if rest_held[i] is None:
                    need(not r.activation_available, f"{what}: rule {i} of the other ruleset is still available")
                else:
                    m.need_act(r.activation, acts[0][i], f"{what}: rule {i} of the other ruleset")

    def cover(what, was):
        got = rs.ruleset_coverage
        need(m.close(got, was), lambda: f"{what}: coverage of the ruleset is {got}, was {was}")

    cov = sum(union(0, range(N))) / len(data[0]["y"])
    cover("after fit", cov)
    for step, (op, k, z) in enumerate(case["ops"]):
        what = f"step {step} ({op})"
        before = [stats(r) for r in rules]
        rest_before = [stats(r) for r in rest]
        refit = False
        if op == "fit":
            rs.fit(y=y(z), xs=xs(z))
            held, fitted, own = [z] * N, [z] * N, z
            stack = z if case["stack"] else None
            refit = True
            cov = sum(union(z, range(N))) / len(data[z]["y"])
        elif op == "rule_fit":
            i = k % N
            rules[i].fit(y=y(z), xs=xs(z))
            held[i], fitted[i] = z, z
            refit = True
        elif op == "rule":
            rules[k % N].del_activation()
            held[k % N] = None
        elif op == "rules":
            rs.del_activations()
            held = [None] * N
        elif op == "own":
            rs.del_activation()
            own = None
        elif op == "stacked":
            rs.del_stacked_activations()
            stack = None
        elif op == "rest_own":
            rest.del_activation()
            rest_own = None
        elif op == "rest_rules":
            rest.del_activations()
            if shares:
                for i in ids:
                    held[i] = None
            else:
                rest_held = [None] * N
        elif op == "predict":
            i = k % N
            got = list(rules[i].predict(xs(z)))
            a = acts[z][i]
            p = rules[i].prediction
            need(len(got) == len(a) and all((str(g) == str(p) or m.close(g, p)) if v else m.isnan(g) or g == "nan" for g, v in zip(got, a)),
                 lambda: f"{what}: rule {i} predicts {got}, activation {a}, prediction {p!r}")
            if held[i] is None:
                try:
                    got = rules[i].predict()
                except ValueError:
                    pass
                else:
                    need(False, lambda: f"{what}: rule {i} predicts {got!r} from an activation that was released")
        elif op == "read":
            _ = [r.coverage for r in rules], str(rs)
        if refit:
            cmp = [i for i in range(N) if op == "rule_fit" and i != k % N]
        else:
            cmp = range(N)
        for i in cmp:
            need_same(before[i], stats(rules[i]), f"{what}: rule {i}")
        if not (shares and refit):
            for i, r in enumerate(rest):
                need_same(rest_before[i], stats(r), f"{what}: rule {i} of the other ruleset")
        if refit and op == "fit":
            for i, r in enumerate(rules):
                if kind == "reg":
                    want = m.reg_stats(acts[z][i], data[z]["y"])
                    m.need_stats(r, {q: want[q] for q in ("prediction", "std", "coverage", "train_set_size")}, f"{what}: rule {i}", scale=1000)
                else:
                    want = m.vote(m.class_counts(acts[z][i], data[z]["y"]))
                    need(m.same_class(r.prediction, want), lambda: f"{what}: rule {i} predicts {r.prediction!r}, expected {want!r}")
        if op != "rule_fit" or own is not None:
            cover(what, cov)
        out.append(op)
        if looked_at(case["look"], step, len(case["ops"])):
            verify(what)
            if case["storage"]["local"] and not case["storage"]["store_raw"]:
                for x in list(rules) + [rs, rest]:
                    a = getattr(x, "_activation", None)
                    if not x.activation_available and isinstance(getattr(a, "data", None), Path):
                        need(not a.data.exists(), lambda: f"{what}: the file {a.data} of a released activation is still there")
    if any(o in ("rule", "rules", "own", "rest_own", "rest_rules") for o in out) and any(m.nontrivial_act(a) for a in acts[0]):
        out.append("nt")
    return out


@st.composite
def unread_strat(draw, tier):
    d = draw(m.dims(3))
    t = draw(m.table(d, min_n=1, max_n=8, big=40))
    return {"kind": draw(st.sampled_from(["reg", "cls"])), "names": draw(m.names_for(d)), "cond": draw(m.cond_spec(d, wide=True)),
            "table": t, "how": draw(m.input_kind()), "storage": draw(m.storage()), "way": draw(st.sampled_from(["calc", "evaluate", "fit", "ruleset"])),
            "read": draw(st.lists(st.sampled_from(["coverage", "nones", "activation", "str"]), max_size=2)),
            "after": draw(st.permutations(["coverage", "nones", "length", "str", "predict"]))}


def check_unread(case):
    """Figures of a vector remain after it is released, whether or not they were asked for before."""
    from ruleskit import RuleSet

    m.apply_storage(case["storage"])
    rws = m.rows(case["table"])
    a = m.act(case["cond"], rws)
    xs = m.make_xs(rws, case["names"], case["how"])
    y = np.array([i % 3 for i in range(len(rws))])
    r = m.make_rule(case["kind"], case["cond"], case["names"])
    if case["way"] == "calc":
        r.calc_activation(xs)
    elif case["way"] == "evaluate":
        r._activation = r.evaluate_activation(xs)
    elif case["way"] == "fit":
        r.fit(y=y, xs=xs)
    else:
        RuleSet([r]).fit(y=y, xs=xs)
    for q in case["read"]:
        _ = str(r) if q == "str" else getattr(r, q)
    r.del_activation()
    need(not r.activation_available and r.activation is None, "the activation is still there")
    for q in case["after"]:
        if q == "coverage":
            need(m.close(r.coverage, sum(a) / len(a)), lambda: f"coverage after the release is {r.coverage}, expected {sum(a) / len(a)}")
        elif q == "nones":
            need(r.nones == sum(a), lambda: f"number of activated points after the release is {r.nones}, expected {sum(a)}")
        elif q == "length":
            need(r._activation.length == len(a), lambda: f"length after the release is {r._activation.length}, expected {len(a)}")
        elif q == "str":
            str(r)
        elif case["way"] in ("fit", "ruleset"):
            got = [int(not m.isnan(g) and str(g) != "nan") for g in r.predict(xs)]
            need(got == (a if not m.isnan(r.prediction) else [0] * len(a)), lambda: f"predicts at {got}, expected {a}")
    return ["nt", case["way"]] if m.nontrivial_act(a) else []


LAWS = [
    Law("unread", unread_strat, check_unread, quick=800, rule="the rule is active on some rows only"),
    Law("release", strat, check, quick=2000, rule="activations were released, and some rule is active on some rows only"),
]
