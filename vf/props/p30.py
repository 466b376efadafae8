"""P30: a rule or a ruleset shows the figures of its own condition and activation."""
import numpy as np
from hypothesis import strategies as st

from ..core import Law
from ..gen import compress_list, need, look, looked_at
from .. import model as m

ASSUMPTIONS = ["rules of a ruleset have different conditions"]

ACT = ["nones", "ones", "length", "entropy", "rel_entropy", "coverage", "as_integer", "as_compressed_str", "as_bitarray", "raw"]


def act_figures(a):
    b = "".join(map(str, a))
    comp = compress_list(b)
    return {"nones": sum(a), "ones": [i for i, v in enumerate(a) if v], "length": len(a), "entropy": len(comp),
            "rel_entropy": len(comp) / len(a), "coverage": sum(a) / len(a), "as_integer": int(b, 2),
            "as_compressed_str": ",".join(map(str, comp)), "as_bitarray": b, "raw": list(a)}


def shown(x, name):
    v = getattr(x, name)
    if name == "as_bitarray":
        return v.to01()
    if name in ("raw", "ones"):
        return [int(i) for i in v]
    if name == "as_compressed_str":
        return str(v).replace(" ", "").strip("[]()")
    return v


@st.composite
def strat(draw, tier):
    d = draw(m.dims(3))
    sets = []
    for _ in range(2):
        t = draw(m.table(d, min_n=1, max_n=9, big=60))
        sets.append({"table": t, "y": draw(m.y_reg(m.n_rows(t))), "how": draw(m.input_kind()), "how_y": draw(m.y_kind())})
    pool = draw(m.conds(d, 1, 4, many=True))
    ops = [["fit", draw(st.integers(0, 1)), 0]]
    for _ in range(draw(st.integers(1, 6))):
        ops.append([draw(st.sampled_from(["fit", "keep", "eval", "rule_fit", "rule_keep", "bounds", "back", "sort", "read", "bad_get",
                                          "bad_set", "private", "predict"])), draw(st.integers(0, 1)), draw(st.integers(0, 5))])
    return {"names": draw(m.names_for(d)), "pool": pool, "sets": sets, "ops": ops, "look": draw(look()), "storage": draw(m.storage()),
            "stacked": draw(st.booleans()), "stack": draw(st.booleans()), "order": draw(st.permutations(ACT)),
            "few": draw(st.integers(1, len(ACT)))}


def check(case):
    from ruleskit import RuleSet

    m.apply_storage(case["storage"])
    RuleSet.STACKED_FIT = case["stacked"]
    names, pool = case["names"], case["pool"]
    data = [{"rows": m.rows(s["table"]), "y": m.expand_y(s["y"])} for s in case["sets"]]
    acts = [[m.act(c, dd["rows"]) for c in pool] for dd in data]
    rules = [m.make_rule("reg", c, names) for c in pool]
    N = len(rules)
    rs = RuleSet(list(rules), stack_activation=case["stack"])
    held, own = [None] * N, None
    bounds = [dict(zip([names[f] for f in c["f"]], zip(m.nums(c["lo"]), m.nums(c["hi"])))) for c in pool]
    out = []

    def xs(k):
        return m.make_xs(data[k]["rows"], names, case["sets"][k]["how"])

    def y(k):
        return m.make_y(data[k]["y"], case["sets"][k]["how_y"])

    def verify(what):
        for i, r in enumerate(rules):
            c = r.condition
            want = {n: (float(a), float(b)) for n, (a, b) in bounds[i].items()}
            for x in (r, c):
                got = {n: (float(a), float(b)) for n, a, b in zip(x.features_names, x.bmins, x.bmaxs)}
                need(got == want, lambda: f"{what}: features and bounds of rule {i} {got}, expected {want}")
                pos = {n: p for n, p in zip(x.features_names, x.features_indexes)}
                need(pos == {n: names.index(n) for n in want}, lambda: f"{what}: positions of rule {i} {pos}")
            need(r.impossible == c.impossible == any(a > b for a, b in want.values()), lambda: f"{what}: impossible flag of rule {i}")
            need(len(r) == len(want) == len(c), lambda: f"{what}: length of rule {i} is {len(r)}")
            text = str(r)
            need(str(c) in text and (r.prediction is None or str(r.prediction) in text.replace(str(c), "")),
                 lambda: f"{what}: the text of rule {i} is {text!r} (condition {c}, prediction {r.prediction})")
        for i, r in list(enumerate(rules)) + [("set", rs)]:
            if i == "set":
                a = None if own is None else own
            else:
                a = None if held[i] is None else acts[held[i]][i]
            if a is None:
                continue
            figs = act_figures(a)
            for name in case["order"][: case["few"]]:
                if i == "set" and name == "coverage":
                    got, want = rs.ruleset_coverage, figs[name]
                else:
                    got, want = shown(r, name), figs[name]
                ok = m.close(got, want) if isinstance(want, float) else got == want
                need(ok, lambda: f"{what}: {name} of {i} is {got!r}, expected {want!r} (activation {a})")

    def stored():
        return ([dict((k, str(v)) for k, v in r.__dict__.items() if k not in ("_activation", "_condition")) for r in rules])

    for step, (op, k, z) in enumerate(case["ops"]):
        what = f"step {step} ({op})"
        i = z % N
        r = rules[i]
        moved = bounds[i] != dict(zip([names[f] for f in pool[i]["f"]], zip(m.nums(pool[i]["lo"]), m.nums(pool[i]["hi"]))))
        anymoved = any(b != dict(zip([names[f] for f in c["f"]], zip(m.nums(c["lo"]), m.nums(c["hi"])))) for b, c in zip(bounds, pool))
        if op in ("fit", "keep") and not anymoved:
            if op == "fit":
                rs.fit(y=y(k), xs=xs(k))
            else:
                rs.eval(y=y(k), xs=xs(k), keep_new_activations=True)
            held = [k] * N
            own = [1 if any(c) else 0 for c in zip(*acts[k])]
        elif op == "eval" and not anymoved:
            rs.eval(y=y(k), xs=xs(k))
        elif op in ("rule_fit", "rule_keep") and not moved:
            if op == "rule_fit":
                r.fit(y=y(k), xs=xs(k))
            else:
                r.eval(y=y(k), xs=xs(k), recompute_activation=True)
            held[i] = k
        elif op == "bounds":
            # through the rule: its condition changes, its activation does not
            order = list(r.features_names)
            new = [float(m.num(v)) - 1 for v in r.bmins]
            r.bmins = new
            bounds[i] = {n: (v, bounds[i][n][1]) for n, v in zip(order, new)}
        elif op == "back":
            order = list(r.features_names)
            orig = dict(zip([names[f] for f in pool[i]["f"]], zip(m.nums(pool[i]["lo"]), m.nums(pool[i]["hi"]))))
            r.bmins = [orig[n][0] for n in order]
            r.bmaxs = [orig[n][1] for n in order]
            bounds[i] = orig
        elif op == "sort":
            r.sort()
        elif op == "predict":
            r.predict(xs(k))
        elif op in ("bad_get", "bad_set", "private"):
            before = stored()
            for x in (r, rs):
                if op == "bad_get":
                    need(not hasattr(x, "no_such_thing"), f"{what}: an unknown attribute exists")
                    try:
                        _ = x.no_such_thing
                    except AttributeError:
                        pass
                    else:
                        need(False, f"{what}: an unknown attribute was given")
                elif op == "bad_set" and x is r:
                    try:
                        x.no_such_thing = 3
                    except AttributeError:
                        pass
                    else:
                        need(False, f"{what}: an unknown attribute was set")
                elif op == "private" and x is r:
                    x._my_own_note = "kept"
                    need(x._my_own_note == "kept" and not hasattr(x.condition, "_my_own_note"), f"{what}: private attribute")
                    del x._my_own_note
            need(stored() == before, lambda: f"{what} changed the rules")
        out.append(op)
        if looked_at(case["look"], step, len(case["ops"])):
            verify(what)
    if any(h is not None and m.nontrivial_act(acts[h][i]) for i, h in enumerate(held)):
        out.append("nt")
    return out


LAWS = [Law("shown", strat, check, quick=1600, rule="in the end some rule is active on some rows only")]
