"""P14: a ruleset's activation is always the OR of its rules' activations, over any history."""
import json

import numpy as np
from hypothesis import strategies as st

from ..core import Law
from ..gen import need, scratch_file, look, looked_at
from .. import model as m
from .p03 import with_memory

ASSUMPTIONS = ["rules of a ruleset have different conditions", "rules combined in a ruleset were fitted on the same rows",
               "when updates were switched off, the vector is judged again after the next computation"]

OPS = ["new", "new", "append", "iadd_rule", "iadd", "add", "add_rule", "setrules", "setrules", "setfresh", "fit", "fit", "fit_none", "eval", "eval_none",
       "eval_keep", "sort", "sort_crit", "slice", "calc", "fit_rule", "predict", "quiet", "new_quiet", "compute", "join", "join", "join", "unstack", "compute_xs"]


@st.composite
def strat(draw, tier):
    d = draw(m.dims(3))
    pool = draw(m.conds(d, 2, 6, many=True))
    sets = []
    for _ in range(2):
        t = draw(m.table(d, min_n=1, max_n=8, big=40))
        n = m.n_rows(t)
        sets.append({"table": t, "y": draw(m.y_reg(n, missing=False)), "how": draw(m.input_kind()), "how_y": draw(m.y_kind())})
    nops = draw(st.integers(3, 12))
    ops = [["new", draw(st.integers(0, 2 ** 6 - 1)), draw(st.integers(0, 7)), draw(st.integers(0, 1)), draw(st.booleans())]]
    for _ in range(nops):
        ops.append([draw(st.sampled_from(OPS)), draw(st.integers(0, 63)), draw(st.integers(0, 7)),
                    draw(st.integers(0, 1)), draw(st.booleans())])
    if draw(st.integers(0, 8)) == 0:  # rules fitted one by one once they are in a ruleset
        k = draw(st.integers(1, 62))
        ops[:1] = [["new", k, 0, 0, draw(st.booleans())]] + [["fit_rule", j, 0, 0, False] for j in range(bin(k & (2 ** len(pool) - 1)).count("1"))] + [
            [draw(st.sampled_from(["join", "append", "iadd_rule", "new_quiet", "add_rule"])), draw(st.integers(0, 63)), draw(st.integers(0, 1)) * 4, 0, draw(st.booleans())]]
    elif draw(st.integers(0, 5)) == 0:  # a ruleset that was evaluated is extended by another one
        k = draw(st.integers(0, 63))
        ops[:1] = [["new", k, 0, draw(st.integers(0, 1)), draw(st.sampled_from([True, True, False]))],
                   ["fit", 0, 0, draw(st.integers(0, 1)), draw(st.booleans())],
                   [draw(st.sampled_from(["eval", "eval_none", "eval_keep"])), 0, 0, draw(st.integers(0, 1)), draw(st.booleans())],
                   ["join", 63 - k, 0, 0, draw(st.booleans())]]
    return {"kind": draw(st.sampled_from(["reg", "reg", "cls"])), "names": draw(m.names_for(d)), "pool": pool,
            "sets": sets, "ops": ops, "look": draw(look()), "stacked_fit": draw(st.sampled_from(["never", "always", "mixed"])),
            "same_n": draw(st.booleans()), "storage": draw(m.storage()), "min_coverage": draw(st.sampled_from([None, None, 0.2, 0.6])),
            "memory": draw(st.sampled_from(["ok", "ok", "ok", "low", "none", "none", "error"]))}


class RS:
    """Model of a ruleset: its rules, whether its vectors can be told from them, and its own vector."""

    def __init__(self, real, rules, stack):
        self.real, self.rules, self.stack = real, rules, stack
        self.vec = None  # expected activation (None: nothing is expected)
        self.stacked = None  # expected columns (None: nothing is expected)
        self.released = False  # stacked activations were released: they may be absent until they are computed again
        self.none = False  # the ruleset must have no vector


class RM:
    def __init__(self, real, i):
        self.real, self.i, self.ds, self.fitted, self.bad = real, i, None, False, False


def check(case):
    return with_memory(case.get("memory", "ok"), lambda: history(case))


def history(case):
    from ruleskit import RuleSet, Rule, RegressionRule, ClassificationRule

    m.apply_storage(case["storage"])
    kind, names = case["kind"], case["names"]
    data = []
    for s in case["sets"]:
        rws = m.rows(s["table"])
        y = m.expand_y(s["y"])
        if data and case.get("same_n"):  # data sets with as many rows
            rws, y = m.resized(rws, len(data[0]["rows"])), m.resized(y, len(data[0]["rows"]))
        if kind == "cls":
            y = [int(abs(v)) % 3 for v in y]
        data.append({"rows": rws, "y": y, "acts": [m.act(c, rws) for c in case["pool"]], "how": s["how"],
                     "how_y": s["how_y"]})
    if case["min_coverage"] is not None:
        p = scratch_file("thresholds.json")
        p.write_text(json.dumps({"coverage": {"min": case["min_coverage"]}}))
        for cls in (RegressionRule, ClassificationRule):
            cls.SET_THRESHOLDS(p)

    def xs_of(i):
        return m.make_xs(data[i]["rows"], names, data[i]["how"])

    def y_of(i):
        return m.make_y(data[i]["y"], data[i]["how_y"])

    everything, sets, out = [], [], ["mem_" + case.get("memory", "ok")]

    def rule(i):
        r = RM(m.make_rule(kind, case["pool"][i], names), i)
        everything.append(r)
        return r

    def set_ds(r, ds):
        """The rule gets the activation of a data set: rulesets holding it are no longer up to date."""
        if r.ds != ds:
            for s in sets:
                if r in s.rules:
                    s.fresh = False
        r.ds = ds
        if case["min_coverage"] is not None and sum(data[ds]["acts"][r.i]) / len(data[ds]["rows"]) < case["min_coverage"]:
            r.bad = True

    def held(s):
        """data set held by all rules of s, or None"""
        ds = {r.ds for r in s.rules}
        return ds.pop() if len(ds) == 1 else None

    def refresh(s, rebuilt=False):
        """s was recomputed from its rules."""
        ds = held(s)
        s.fresh = ds is not None
        if ds is None or not s.rules:
            s.vec = s.stacked = None
            s.none = rebuilt and all(r.ds is None for r in s.rules)
            return
        s.none = False
        n = len(data[ds]["rows"])
        s.vec = [1 if any(data[ds]["acts"][r.i][k] for r in s.rules) else 0 for k in range(n)]
        s.stacked = [data[ds]["acts"][r.i] for r in s.rules] if s.stack else None

    def verify(what):
        if what != "end" and not looked_at(case["look"], step, len(case["ops"])):
            return
        for r in everything:
            if r.ds is not None:
                m.need_act(r.real.activation, data[r.ds]["acts"][r.i], f"{what}: activation of a rule")
        for k, s in enumerate(sets):
            real = s.real
            need([id(x) for x in real.rules] == [id(r.real) for r in s.rules],
                 lambda: f"{what}: ruleset {k} holds {[str(x) for x in real.rules]}, expected {[str(r.real) for r in s.rules]}")
            if s.none:
                need(real.activation is None and not real.stacked_activations_available,
                     lambda: f"{what}: no rule of ruleset {k} has an activation, it has {real.activation}")
            if s.vec is not None:
                need(real.activation is not None, f"{what}: ruleset {k} has no activation")
                m.need_act(real.activation, s.vec, f"{what}: activation of ruleset {k}")
                need(m.close(real.ruleset_coverage, sum(s.vec) / len(s.vec)),
                     lambda: f"{what}: coverage of ruleset {k} is {real.ruleset_coverage}")
            if s.stacked is not None and not (s.released and real.stacked_activations is None):
                df = real.stacked_activations
                need(df is not None, f"{what}: ruleset {k} has no stacked activations")
                need(df.shape == (len(s.vec), len(s.rules)), lambda: f"{what}: stacked activations of shape {df.shape}")
                need(list(df.columns) == [str(r.real.condition) for r in s.rules], lambda: f"{what}: columns {list(df.columns)}")
                for j, a in enumerate(s.stacked):
                    m.need_act(df.iloc[:, j].values, a, f"{what}: stacked column {j} of ruleset {k}")

    def known(s):
        """The vectors of s are up to date, or were never computed though those of its rules are known."""
        return s.fresh or held(s) is not None and s.real.activation is None and not s.real.stacked_activations_available

    def conds_of(s):
        return {r.i for r in s.rules}

    for step, (op, x, sel, ds, flag) in enumerate(case["ops"]):
        RuleSet.STACKED_FIT = {"never": False, "always": True, "mixed": bool((x + step) % 2)}[case["stacked_fit"]]
        what = f"step {step} {op}"
        if op == "new":
            if len(sets) >= 4:
                continue
            rs = [rule(i) for i in range(len(case["pool"])) if x >> i & 1]
            if sel & 1:
                for r in rs:
                    r.real.fit(y=y_of(ds), xs=xs_of(ds))
                    set_ds(r, ds)
                    r.fitted = True
            s = RS(RuleSet([r.real for r in rs], stack_activation=flag), rs, flag)
            sets.append(s)
            refresh(s, rebuilt=True)
            verify(what)
            continue
        if op == "fit_rule":
            r = everything[x % len(everything)] if everything else None
            if r is None or r.ds not in (None, ds):
                continue
            r.real.fit(y=y_of(ds), xs=xs_of(ds))
            set_ds(r, ds)
            r.fitted = True
            verify(what)
            continue
        if not sets:
            continue
        s = sets[sel % len(sets)]
        if op == "new_quiet":
            if len(sets) >= 5 or not s.rules or held(s) is None:
                continue
            new = RS(RuleSet([r.real for r in s.rules], compute_activation=False, stack_activation=flag), list(s.rules), flag)
            need(new.real.activation is None and not new.real.activation_available, f"{what}: an activation that was not asked for")
            new.fresh = False
            sets.append(new)
        elif op == "quiet":
            i = x % len(case["pool"])
            if i in conds_of(s) or not s.fresh or held(s) is None:
                continue
            r = rule(i)
            r.real.fit(y=y_of(held(s)), xs=xs_of(held(s)))
            set_ds(r, held(s))
            r.fitted = True
            s.real.append(r.real, update_activation=False)
            s.rules = s.rules + [r]
            s.stacked, s.fresh = None, False
        elif op == "unstack":
            if not s.rules or not s.fresh:
                continue
            s.real.del_stacked_activations()
            need(s.real.stacked_activations is None and not s.real.stacked_activations_available, f"{what}: stacked activations were released")
            s.stacked, s.released = None, True
        elif op == "compute":
            if not s.rules or held(s) is None:
                continue
            s.real.compute_self_activation()
            s.released = False
            if s.stack:
                s.real.compute_stacked_activation()
            refresh(s)
            out.append("nt")
        elif op == "compute_xs":  # the vectors for other rows, the rules keeping theirs
            if not s.rules:
                continue
            s.real.compute_self_activation(xs=xs_of(ds))
            s.released = False
            if s.stack:
                s.real.compute_stacked_activation(xs=xs_of(ds))
            acts = [data[ds]["acts"][r.i] for r in s.rules]
            s.vec = [1 if any(col) else 0 for col in zip(*acts)]
            s.stacked = acts if s.stack else None
            s.none, s.fresh = False, held(s) == ds
            out.append("nt")
        elif op == "join":
            free = [i for i in range(len(case["pool"])) if i not in conds_of(s)]
            if not free or not s.rules or not (s.fresh or s.none) or held(s) is None:
                continue
            rs = [rule(i) for i in [i for i in free if x >> i & 1] or free[:1]]
            for r in rs:
                r.real.fit(y=y_of(held(s)), xs=xs_of(held(s)))
                set_ds(r, held(s))
                r.fitted = True
            if not s.fresh:
                out.append("late")
            s.real += RuleSet([r.real for r in rs], stack_activation=flag, compute_activation=sel < 4)
            s.rules = s.rules + rs
            refresh(s)
            out.append("nt")
        elif op in ("append", "iadd_rule", "add_rule"):
            i = x % len(case["pool"])
            if i in conds_of(s) or not (s.fresh or s.none) and s.rules:
                continue
            r = rule(i)
            if held(s) is not None:
                r.real.fit(y=y_of(held(s)), xs=xs_of(held(s)))
                set_ds(r, held(s))
                r.fitted = True
            elif not s.rules:
                r.real.calc_activation(xs_of(ds))
                set_ds(r, ds)
            else:
                continue
            if op == "add_rule":
                if len(sets) >= 5:
                    continue
                new = RS(s.real + r.real, s.rules + [r], s.stack)
                sets.append(new)
                refresh(new)
            else:
                if op == "append":
                    s.real.append(r.real)
                else:
                    before = s.real
                    s.real += r.real
                    need(s.real is before, "+= returned another ruleset")
                s.rules = s.rules + [r]
                refresh(s)
            out.append("nt")
        elif op in ("iadd", "add"):
            o = sets[x % len(sets)]
            if o is s or not o.rules or not known(o) or (s.rules and (not (s.fresh or s.none) or held(s) != held(o))):
                continue
            if op == "iadd":
                if conds_of(s) & conds_of(o):
                    continue
                s.real += o.real
                s.rules = s.rules + o.rules
                refresh(s)
            else:
                if len(sets) >= 5:
                    continue
                real = s.real + o.real
                byid = {id(r.real): r for r in everything}
                rs = [byid[id(z)] for z in real.rules]
                need({r.i for r in rs} == conds_of(s) | conds_of(o) and len(rs) == len(conds_of(s) | conds_of(o)),
                     f"{what}: union of the rules")
                new = RS(real, rs, s.stack and o.stack)
                sets.append(new)
                refresh(new)
            out.append("nt")
        elif op == "setrules":
            rs = [r for k, r in enumerate(s.rules) if x >> k & 1]
            if len({r.ds for r in rs}) > 1:
                continue  # rules fitted on different rows are not to be combined
            s.real.rules = [r.real for r in rs]
            s.rules = rs
            refresh(s, rebuilt=True)
        elif op == "setfresh":
            rs = [rule(i) for i in range(len(case["pool"])) if x >> i & 1]
            if flag:
                for r in rs:
                    r.real.calc_activation(xs_of(ds))
                    set_ds(r, ds)
            s.real.rules = [r.real for r in rs]
            s.rules = rs
            refresh(s, rebuilt=True)
        elif op in ("fit", "calc"):
            if not s.rules:
                continue
            s.released = False
            if op == "fit":
                ret = s.real.fit(y=y_of(ds), xs=xs_of(ds))
            else:
                s.real.calc_activation(xs_of(ds))
            for r in s.rules:
                set_ds(r, ds)
                r.fitted = r.fitted or op == "fit"
            if op == "fit":
                bad = [r for r in s.rules if r.bad]
                need([id(z) for z in ret] == [id(r.real) for r in bad], lambda: f"{what}: {len(ret)} rules dropped")
                s.rules = [r for r in s.rules if not r.bad]
                if bad and s.rules:
                    out.append("dropped")
            refresh(s)
            out.append("nt")
        elif op == "fit_none":
            if not s.rules or not s.fresh or all(r.fitted for r in s.rules):
                continue
            s.real.fit(y=y_of(held(s)))
            for r in s.rules:
                r.fitted = True
            s.rules = [r for r in s.rules if not r.bad]
            refresh(s)
            out.append("nt")
        elif op in ("eval", "eval_none", "eval_keep"):
            if not s.rules or not all(r.fitted for r in s.rules) or not s.fresh:
                continue
            where = held(s) if op == "eval_none" else ds
            left = [r for r in s.rules if not r.bad and not (
                op == "eval_keep" and case["min_coverage"] is not None
                and sum(data[where]["acts"][r.i]) / len(data[where]["rows"]) < case["min_coverage"])]
            if kind == "cls" and not any(any(data[where]["acts"][r.i]) and not m.isnan(r.real.prediction) for r in left):
                continue  # a classification ruleset refuses to predict when no rule is active
            if op == "eval_none":
                ret = s.real.eval(y=y_of(where))
            else:
                ret = s.real.eval(y=y_of(where), xs=xs_of(where), keep_new_activations=op == "eval_keep")
            was_bad = [r for r in s.rules if r.bad]
            if op == "eval_keep":
                s.released = False
                for r in s.rules:
                    if not (r in was_bad and not RuleSet.STACKED_FIT):  # bad rules are not evaluated one by one
                        set_ds(r, where)
            bad = [r for r in s.rules if r.bad]
            need([id(z) for z in ret] == [id(r.real) for r in bad], lambda: f"{what}: {len(ret)} rules dropped, expected {len(bad)}")
            s.rules = [r for r in s.rules if not r.bad]
            refresh(s)
            out.append("nt")
        elif op in ("sort", "sort_crit"):
            if not s.fresh:
                continue
            before = list(s.rules)
            s.real.sort(criterion="nones" if op == "sort_crit" and s.rules and held(s) is not None else None, reverse=flag)
            byid = {id(r.real): r for r in s.rules}
            need(sorted(map(id, s.real.rules)) == sorted(byid), f"{what}: not a permutation of the rules")
            s.rules = [byid[id(z)] for z in s.real.rules]
            stacked = s.stacked is not None
            refresh(s)
            if not stacked:
                s.stacked = None
            if before != s.rules:
                out.append("nt")
        elif op == "slice":
            if len(sets) >= 5 or not s.rules:
                continue
            lo, hi = sorted((x % (len(s.rules) + 1), (x // 8) % (len(s.rules) + 1)))
            if len({r.ds for r in s.rules[lo:hi]}) > 1:
                continue
            new = RS(s.real[lo:hi], s.rules[lo:hi], False)
            sets.append(new)
            refresh(new)
            new.stack = bool(new.real.stack_activation)
            if new.stack:
                refresh(new)
        elif op == "predict":
            if not s.rules or not s.fresh or not all(r.fitted for r in s.rules):
                continue
            if kind == "cls" and not any(any(data[ds]["acts"][r.i]) and not m.isnan(r.real.prediction) for r in s.rules):
                continue
            s.real.predict(xs_of(ds))
        verify(what)
    verify("end")
    return out


LAWS = [
    Law("history", strat, check, quick=1600,
        rule="a ruleset with rules was extended, fitted, evaluated or reordered"),
]
