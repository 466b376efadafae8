"""P24: deep copies are faithful and independent; pickled and restored objects are faithful."""
import json
import pickle
from copy import deepcopy

import numpy as np
from hypothesis import strategies as st

from ..core import Law
from ..gen import FORMATS, act_spec, apply_config, bits, config, make_activation, need, nontrivial_bits, same_bits, scratch_file
from .. import model as m

ASSUMPTIONS = ["a pickled object is restored while the files of its activations are still there",
               "rules of a ruleset have different conditions"]


# ------------------------------------------------------------------------------------------- what can be seen
def vec(a):
    return None if a is None else [float(v) for v in np.asarray(a)]


def snap_condition(c):
    return {"names": list(c.features_names), "pos": list(c.features_indexes), "lo": [float(v) for v in c.bmins],
            "hi": [float(v) for v in c.bmaxs], "impossible": bool(c.impossible), "text": str(c), "hash": hash(c)}


def snap_rule(r, act=True):
    out = {"condition": snap_condition(r.condition), "text": str(r), "good": r.good, "kind": type(r).__name__,
           "bad_because": r.bad_because, "limits": None if r.thresholds is None else json.dumps(r.thresholds.limits, sort_keys=True)}
    for k in ("prediction", "std", "sign", "zscore", "criterion", "coverage", "train_set_size", "test_set_size"):
        v = getattr(r, k, None)
        out[k] = None if v is None else str(v)
    out["available"] = r.activation_available
    if act and r.activation_available:
        out["activation"] = vec(r.activation)
        out["nones"] = int(r.nones)
    return out


def snap_ruleset(rs, act=True):
    out = {"rules": [snap_rule(r, act) for r in rs], "names": sorted(rs.features_names), "pos": sorted(rs.features_indexes),
           "text": str(rs), "hash": hash(rs), "available": rs.activation_available}
    for k in ("ruleset_coverage", "criterion", "train_set_size", "test_set_size"):
        v = getattr(rs, k)
        out[k] = None if v is None else str(v)
    if act and rs.activation_available:
        out["activation"] = vec(rs.activation)
    df = rs.stacked_activations
    out["stacked"] = None if df is None else [list(df.columns), [[float(v) for v in r] for r in df.values]]
    return out


def need_same(a, b, what):
    if a != b:
        for k in a:
            if a[k] != b.get(k):
                if k == "rules":
                    for i, (x, y) in enumerate(zip(a[k], b[k])):
                        need_same(x, y, f"{what}: rule {i}")
                need(False, lambda: f"{what}: {k} {b.get(k)!r}, expected {a[k]!r}")
        need(False, lambda: f"{what}: {b}, expected {a}")


# ------------------------------------------------------------------------------------------- rulesets and rules
def limits():
    """Thresholds of one rule."""
    v = st.sampled_from([-2, -0.5, 0, 0.5, 1, 3])
    return st.one_of(
        st.just({"coverage": {"min": 0}}),
        st.sampled_from([0.3, 0.5, 0.8]).map(lambda c: {"coverage": {"min": c}}),
        st.builds(lambda a, b: {"coverage": {"min": 0}, "prediction": {a: b}}, st.sampled_from(["min", "max"]), v),
        st.builds(lambda a, b: {"coverage": {"min": 0}, "criterion": {a: b}}, st.sampled_from(["min", "max"]), v),
    )


@st.composite
def strat(draw, tier):
    d = draw(m.dims(3))
    kind = draw(st.sampled_from(["reg", "reg", "cls"]))
    classes = draw(st.sampled_from(m.CLASS_SETS))
    sets = []
    for _ in range(2):
        t = draw(m.table(d, min_n=2, max_n=8, big=40))
        n = m.n_rows(t)
        if kind == "reg":
            y = draw(m.y_reg(n))
        elif n > 40:
            y = {"seed": draw(st.integers(0, 10 ** 6)), "classes": classes, "n": n}
        else:
            y = [draw(st.sampled_from(classes)) for _ in range(n)]
        sets.append({"table": t, "y": y, "how": draw(m.input_kind()), "how_y": draw(m.y_kind())})
    return {"kind": kind, "names": draw(m.names_for(d)), "pool": draw(m.conds(d, 2, 4, many=True)), "sets": sets,
            "storage": draw(m.storage()), "stacked": draw(st.booleans()), "stack": draw(st.booleans()),
            "stage": draw(st.sampled_from(["new", "fit", "fit", "eval", "eval", "released"])),
            "what": draw(st.sampled_from(["ruleset", "ruleset", "rule"])),
            "how": draw(st.sampled_from(["deepcopy", "deepcopy", "deepcopy", "pickle"])),
            "ops": [[draw(st.sampled_from(["refit", "keep", "eval", "release", "release_own", "append", "bounds", "sort",
                                           "empty", "names", "predict", "limits", "no_limits"])), draw(st.integers(0, 1))]
                    for _ in range(draw(st.integers(1, 4)))],
            # Thresholds of some rules; things done to both alike before the rest
            "own": [draw(st.one_of(st.none(), limits() if kind == "reg" else st.just({"coverage": {"min": 0.4}})))
                    for _ in range(4)] if draw(st.booleans()) else [],
            "alike": [draw(st.sampled_from(["refit", "keep", "eval", "sort", "predict"])) for _ in range(draw(st.integers(0, 2)))]}


def check(case):
    from ruleskit import RuleSet

    m.apply_storage(case["storage"])
    kind, names, pool = case["kind"], case["names"], case["pool"]
    exp = m.expand_y if kind == "reg" else m.expand_classes
    data = [{"rows": m.rows(s["table"]), "y": exp(s["y"])} for s in case["sets"]]
    RuleSet.STACKED_FIT = case["stacked"]
    out = [case["stage"], case["how"], case["what"]]

    def xs(k):
        return m.make_xs(data[k]["rows"], names, case["sets"][k]["how"])

    def y(k):
        return m.make_y(data[k]["y"], case["sets"][k]["how_y"])

    def ask(f, *a, **kw):
        """A classification ruleset none of whose rules take part may refuse with ValueError."""
        if kind == "reg":
            return f(*a, **kw)
        try:
            return f(*a, **kw)
        except ValueError:
            out.append("refused")
            return ["refused"]

    spare = m.make_rule(kind, pool[-1], names)
    rules = [m.make_rule(kind, c, names) for c in pool[:-1]]
    for k, (r, own) in enumerate(zip(rules, case["own"])):
        if own is not None:
            p = scratch_file(f"own{k}.json")
            p.write_text(json.dumps(own))
            r.set_thresholds(p)
            out.append("own_limits")
    whole = case["what"] == "ruleset"
    if whole:
        x = RuleSet(rules, stack_activation=case["stack"])
        snap = snap_ruleset
    else:
        x = rules[0]
        snap = snap_rule
    if case["stage"] != "new":
        x.fit(y=y(0), xs=xs(0))
        spare.fit(y=y(0), xs=xs(0))
        if case["stage"] == "eval":
            ask(x.eval, y=y(1), xs=xs(1))
        if case["stage"] == "released":
            if whole:
                x.del_activations()
                x.del_activation()
                x.del_stacked_activations()
            else:
                x.del_activation()
    before = snap(x)
    z = deepcopy(x) if case["how"] == "deepcopy" else pickle.loads(pickle.dumps(x))
    need(type(z) is type(x), lambda: f"the copy of a {type(x).__name__} is a {type(z).__name__}")
    need_same(before, snap(z), "the copy")
    need_same(before, snap(x), "the original, after being copied")
    need(z == x and hash(z) == hash(x), "the copy is not equal to the original")
    if case["stage"] != "new" and (not whole or len(x) > 0):
        # The rows predicted with other features are the same, the two being asked one after the other
        p, q = ask(x.predict, xs(1)), ask(z.predict, xs(1))
        need([str(v) for v in p] == [str(v) for v in q], lambda: f"the copy predicts {list(q)}, the original {list(p)}")
    # What is done to both alike has the same effect on both (a restored object shares the files: what is fitted has its own)
    for op in case["alike"]:
        done = []
        for me in (x, z):
            if whole and len(me) == 0:
                continue
            fitted = all(r.prediction is not None for r in me) if whole else me.prediction is not None
            here = all(r.activation_available for r in me) if whole else me.activation_available
            res = None
            if op == "refit":
                res = me.fit(y=y(1), xs=xs(1))
            elif op == "keep" and fitted:
                res = ask(me.eval, y=y(1), xs=xs(1), **({"keep_new_activations": True} if whole else {"recompute_activation": True}))
            elif op == "eval" and fitted and here:
                res = ask(me.eval, y=y(1), xs=xs(1))
            elif op == "sort" and whole:
                me.sort(reverse=True)
            elif op == "predict" and fitted:
                res = ask(me.predict, xs(0))
            done.append([str(v) for v in res] if res is not None else None)
        if len(done) == 2:
            need(done[0] == done[1], lambda: f"{op} gives {done[0]} with the original and {done[1]} with the copy")
            out.append("alike_" + op)
        need_same(snap(x), snap(z), f"the copy, after {op} on both")
    if case["how"] == "pickle":
        return out + ["nt"] * (case["stage"] in ("fit", "eval"))
    both = [x, z]
    changed = False
    for op, who in case["ops"]:
        me, other = both[who], both[1 - who]
        kept = snap(other)
        mine = snap(me)
        first = me[0] if whole and len(me) > 0 else me
        done = True
        if whole and len(me) == 0:
            continue
        fitted = all(r.prediction is not None for r in me) if whole else me.prediction is not None
        if op == "refit":
            me.fit(y=y(1), xs=xs(1))
        elif op == "keep" and fitted:
            ask(me.eval, y=y(1), xs=xs(1), **({"keep_new_activations": True} if whole else {"recompute_activation": True}))
        elif op == "eval" and fitted and (me.activation_available if not whole else all(r.activation_available for r in me)):
            ask(me.eval, y=y(1), xs=xs(1))
        elif op == "release":
            if whole:
                me.del_activations()
            else:
                me.del_activation()
        elif op == "release_own" and whole:
            me.del_activation()
            me.del_stacked_activations()
        elif op == "append" and whole:
            # rules that know about different rows are not to be combined
            rows = {len(r.activation) for r in list(me) + [spare] if r.activation is not None}
            if len(spare.condition) and not any(r == spare for r in me) and len(rows) < 2:
                me.append(deepcopy(spare), update_activation=False)
        elif op == "bounds":
            first.bmins = [v - 1 for v in m.nums(list(first.bmins))]
        elif op == "names":
            first.condition.features_names[0] = "zz" + first.condition.features_names[0]
            first.condition.features_names[0] = first.condition.features_names[0][2:]
            first.condition.bmaxs[0] = 17.5
        elif op == "sort" and whole:
            me.sort(reverse=True)
        elif op == "empty" and whole:
            me.rules = None
        elif op == "predict" and fitted:
            ask(me.predict, xs(0))
        elif op == "limits":
            p = scratch_file("new.json")
            p.write_text(json.dumps({"coverage": {"min": 0.25}}))
            first.set_thresholds(p)
        elif op == "no_limits":
            first.set_thresholds(None)
        else:
            done = False
        if done:
            out.append(op)
            need_same(kept, snap(other), f"after {op} on the {'copy' if who else 'original'}, the other one")
            changed = changed or snap(me) != mine
    if changed and case["stage"] in ("fit", "eval"):
        out.append("nt")
    return out


# ------------------------------------------------------------------------------------------- activations
@st.composite
def act_strat(draw, tier):
    return {"bits": draw(bits(tier)), "spec": draw(act_spec(FORMATS)), "config": draw(config()),
            "read": draw(st.booleans()), "how": draw(st.sampled_from(["deepcopy", "deepcopy", "pickle"])),
            "ops": [[draw(st.sampled_from(["delete", "clear", "and", "or", "raw", "stats"])), draw(st.integers(0, 1))]
                    for _ in range(draw(st.integers(1, 3)))]}


def check_act(case):
    b = case["bits"]
    apply_config(case["config"])
    a = make_activation(b, case["spec"])
    if case["read"]:
        need(same_bits(a.raw, b), "the original")
    z = deepcopy(a) if case["how"] == "deepcopy" else pickle.loads(pickle.dumps(a))
    for w, what in ((z, "copy"), (a, "original")):
        need(same_bits(w.raw, b), lambda: f"the {what} of {b} reads {w.raw!r}")
        need(len(w) == len(b), lambda: f"length of the {what}: {len(w)}")
        need(w.nones == b.count("1"), lambda: f"ones of the {what}: {w.nones}")
        need(w.as_integer == int(b, 2), lambda: f"integer of the {what}")
    out = [case["how"]]
    if case["how"] == "pickle":
        return out + ["nt"] * nontrivial_bits(b)
    both, now = [a, z], [b, b]
    for op, who in case["ops"]:
        me, other = both[who], both[1 - who]
        if now[who] is None:
            continue
        if op == "delete":
            me.delete()
            now[who] = None
        elif op == "clear":
            me.clear()
            now[who] = "0" * len(b)
        elif now[1 - who] is not None and op in ("and", "or"):
            r = me & other if op == "and" else me | other
            x, y = int(now[who], 2), int(now[1 - who], 2)
            want = format(x & y if op == "and" else x | y, f"0{len(b)}b")
            need(same_bits(r.raw, want), lambda: f"{op} of an activation and its copy: {r.raw!r}, expected {want}")
            r.delete()
        elif op == "raw":
            need(same_bits(me.raw, now[who]), lambda: f"reads {me.raw!r}")
        elif op == "stats":
            _ = me.entropy, me.rel_entropy, me.coverage, me.ones
        if now[1 - who] is not None:
            want = now[1 - who]
            need(same_bits(other.raw, want),
                 lambda: f"after {op} on the {'copy' if who else 'original'}, the other one reads {other.raw!r}, not {want}")
            need(other.nones == want.count("1"), lambda: f"after {op}, ones of the other one: {other.nones}")
        out.append(op)
    if nontrivial_bits(b):
        out.append("nt")
    return out


LAWS = [
    Law("rules", strat, check, quick=2000,
        rule="a fitted rule or ruleset was copied, and an operation changed the copy or the original; or it was pickled"),
    Law("activation", act_strat, check_act, quick=2500, rule="the vector has both zeros and ones"),
]
