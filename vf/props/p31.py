"""P31: a refused operation leaves everything as it was, and a failed one can simply be tried again."""
import builtins
import json
from copy import copy, deepcopy
from pathlib import Path

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from ..core import Law
from ..gen import need, scratch_file
from .. import model as m
from .p24 import need_same, snap_rule, snap_ruleset

ASSUMPTIONS = ["rules of a ruleset have different conditions",
               "after a fit, an evaluation or a computation of activations that failed, figures are judged after the next fit (those of "
               "the test set, which a fit does not touch, are not judged after a failed evaluation)"]

GOOD = ["append", "quiet", "iadd", "add", "fit", "fit", "calc", "eval", "keep", "predict", "sort", "slice", "setrules", "release"]
BAD = ["append_other", "append_quiet_other", "append_thing", "append_quiet_thing", "iadd_other", "iadd_ruleset_other", "add_other",
       "setrules_thing", "setrules_mixed", "new_thing", "sort_unknown", "append_length", "iadd_length", "add_length",
       "iadd_ruleset_length", "setrules_length", "fit_method", "eval_method", "bounds", "names", "thresholds", "class_thresholds", "load_missing",
       "load_garbage", "getitem", "eval_unfitted", "fit_narrow", "fit_narrow", "eval_narrow", "keep_narrow", "calc_narrow",
       "predict_narrow", "duplicates", "names_twice", "bounds_text", "rule_type", "condition_and", "condition_new", "sort_things",
       "fit_empty", "eval_empty", "keep_empty", "calc_empty", "rule_empty", "fit_rows", "eval_rows"]
# these may leave figures behind, to be overwritten by the next fit
DIRTY = ("fit_narrow", "keep_narrow", "calc_narrow", "eval_narrow", "fit_rows", "eval_rows")
# these are not refused: there is nothing to do
NOTHING = ("fit_empty", "eval_empty", "keep_empty", "calc_empty", "rule_empty")


@st.composite
def strat(draw, tier):
    d = draw(m.dims(3))
    kind = draw(st.sampled_from(["reg", "reg", "cls"]))
    classes = draw(st.sampled_from(m.CLASS_SETS))
    sets = []
    for _ in range(2):
        t = draw(m.table(d, min_n=2, max_n=8, big=40))
        n = m.n_rows(t)
        if kind == "reg":
            y = draw(m.y_reg(n))
        elif n > 40:
            y = {"seed": draw(st.integers(0, 10 ** 6)), "classes": classes, "n": n}
        else:
            y = [draw(st.sampled_from(classes)) for _ in range(n)]
        sets.append({"table": t, "y": y, "how": draw(m.input_kind()), "how_y": draw(m.y_kind())})
    ops = []
    for _ in range(draw(st.integers(2, 8))):
        ops.append([draw(st.sampled_from(GOOD if draw(st.booleans()) else BAD)), draw(st.integers(0, 15)), draw(st.integers(0, 1))])
    return {"kind": kind, "names": draw(m.names_for(d)), "pool": draw(m.conds(d, 2, 5, many=True)), "sets": sets,
            "storage": draw(m.storage()), "stacked": draw(st.booleans()), "stack": draw(st.booleans()),
            "start": draw(st.sampled_from(["new", "fit", "fit"])), "ops": ops,
            "limits": draw(st.sampled_from([None, None, "class", "rule"])), "cov": draw(st.sampled_from([[0.01, 1], [0.01, 1], [0.3, 0.8]]))}


def head(a, n):
    return a[:n] if isinstance(a, np.ndarray) else a.iloc[:n]


class NothingToDo(Exception):
    """Not an error: the operation must do nothing"""


def limits_file(case):
    f = scratch_file("limits.json")
    f.write_text(json.dumps({"coverage": {"min": case["cov"][0], "max": case["cov"][1]}}))
    return f


def limits_of(r):
    """Limits that the rule is held to."""
    return None if r.thresholds is None else json.dumps(r.thresholds.limits, sort_keys=True)


class World:
    """A ruleset over the first rules of the pool, driven by operations; the refused ones may be left out."""

    def __init__(self, case):
        from ruleskit import RuleSet

        self.case, self.kind, self.names, self.pool = case, case["kind"], case["names"], case["pool"]
        exp = m.expand_y if self.kind == "reg" else m.expand_classes
        self.data = [{"rows": m.rows(s["table"]), "y": exp(s["y"])} for s in case["sets"]]
        self.n0 = max(1, len(self.pool) // 2)
        self.rules = [self.rule(i) for i in range(self.n0)]
        self.next = self.n0
        self.rs = RuleSet(list(self.rules), stack_activation=case["stack"])
        self.held = None  # data set that the ruleset was last fitted or computed on
        self.fitted = False
        self.dirty = False
        self.quiet = False  # rules were appended without updating the activation
        self.stale = False  # an evaluation failed: some rules may have been evaluated, and a fit does not undo that
        if case["start"] == "fit":
            self.rs.fit(y=self.y(0), xs=self.xs(0))
            self.held, self.fitted = 0, True

    def rule(self, i, kind=None, ds=None):
        r = m.make_rule(kind or self.kind, self.pool[i % len(self.pool)], self.names)
        if self.case.get("limits") == "rule":
            r.set_thresholds(limits_file(self.case))
        if ds is not None:
            r.fit(y=self.y(ds), xs=self.xs(ds))
        return r

    def xs(self, k):
        return m.make_xs(self.data[k]["rows"], self.names, self.case["sets"][k]["how"])

    def y(self, k):
        return m.make_y(self.data[k]["y"], self.case["sets"][k]["how_y"])

    def narrow(self, k):
        """Features of the set without the last one that some rule talks about, or None."""
        used = {f for r in self.rs if not r.condition.impossible for f in r.features_names}
        if not used:
            return None
        last = max(self.names.index(f) for f in used)
        x = self.xs(k)
        if isinstance(x, np.ndarray):
            return x[:, :last]
        return x.drop(columns=[self.names[last]])

    def ask(self, f, *a, **kw):
        if self.kind == "reg":
            return f(*a, **kw)
        try:
            return f(*a, **kw)
        except ValueError:  # no rule of the classification ruleset takes part
            return ["refused"]

    def good(self, op, k, z):
        from ruleskit import RuleSet

        rs = self.rs
        if op in ("append", "quiet", "iadd", "add"):
            if self.next >= len(self.pool) or self.dirty:
                return False
            if not self.fitted or not len(rs) or not rs.activation_available or not all(r.activation_available for r in rs) or (self.quiet and op != "quiet"):
                return False
            r = self.rule(self.next, ds=self.held)
            self.next += 1
            if op == "append":
                rs.append(r)
            elif op == "quiet":
                rs.append(r, update_activation=False)
                self.quiet = True
            elif op == "iadd":
                self.rs += r
            else:
                self.rs = rs + r
        elif op == "fit":
            if not len(rs):
                return False
            rs.fit(y=self.y(z), xs=self.xs(z))
            self.held, self.fitted, self.dirty, self.quiet = z, True, False, False
        elif op == "calc":
            if not len(rs) or self.dirty:
                return False
            rs.calc_activation(self.xs(z))
            self.held, self.quiet = z, False
        elif op in ("eval", "keep"):
            if not len(rs) or self.dirty or self.quiet or not self.fitted or not all(r.activation_available for r in rs):
                return False
            self.ask(rs.eval, y=self.y(z), xs=self.xs(z), keep_new_activations=op == "keep")
            if op == "keep":
                self.held = z
        elif op == "predict":
            if not len(rs) or not self.fitted or self.dirty:
                return False
            self.ask(rs.predict, self.xs(z))
        elif op == "sort":
            rs.sort(reverse=bool(z))
        elif op == "slice":
            if len({r.activation_available for r in rs}) > 1 or not len(rs) or self.dirty:
                return False
            self.rs = rs[: 1 + k % len(rs)]
            self.quiet = False
        elif op == "setrules":
            if not len(rs) or len({r.activation_available for r in rs}) > 1 or self.dirty:
                return False
            rs.rules = list(rs.rules)[k % len(rs):]
            self.quiet = False
        elif op == "release":
            rs.del_stacked_activations()
        return True

    def bad(self, op, k, z):
        """Returns a function to be refused with one of the exceptions, or None when it does not apply."""
        from ruleskit import RegressionRule, ClassificationRule, RuleSet, HyperrectangleCondition
        from ruleskit.condition import DuplicatedFeatures

        rs = self.rs
        if op in DIRTY and self.case.get("limits"):
            return None  # a rule that was fitted before the failure may have been found bad, which no later fit undoes
        other = "cls" if self.kind == "reg" else "reg"

        def strange():
            """A rule of the other kind, fitted or not"""
            r = m.make_rule(other, self.pool[-1], self.names)
            if k % 2:
                r.calc_activation(self.xs(z))
            return r

        thing = [5, None, "rule", [1, 2], {}, 0.5][k % 6]
        if op in ("append_other", "append_quiet_other", "iadd_other", "iadd_ruleset_other", "add_other", "setrules_mixed") and not len(rs):
            return None
        length = op.endswith("_length")
        if length:
            n = [len(q["rows"]) for q in self.data]
            if n[0] == n[1] or self.held is None or self.dirty or self.quiet or not len(rs) or not rs.activation_available \
                    or not all(r.activation_available for r in rs):
                return None
            if not all(len(r.activation) == n[self.held] for r in rs):
                return None
            # not in the ruleset yet
            used = {str(r.condition) for r in rs}
            far = [i for i in range(len(self.pool)) if str(m.make_condition(self.pool[i], self.names)) not in used]
            if not far:
                return None
            r = self.rule(far[k % len(far)], ds=1 - self.held)
        narrow = op.endswith("_narrow")
        if narrow:
            x = self.narrow(z)
            if x is None or (x.shape[1] == 0):
                return None
            if op == "predict_narrow" and not self.fitted:
                return None
            if op in ("eval_narrow", "keep_narrow") and (not self.fitted or self.quiet or not all(r.activation_available and r.good for r in rs)):
                return None

        def iadd(what):
            def f():
                self.rs += what
            return f

        def setrules(what):
            def f():
                self.rs.rules = what
            return f

        def setter(name, value):
            def f():
                setattr(rs[k % len(rs)], name, value)
            return f

        if op == "append_other":
            return lambda: rs.append(strange()), TypeError
        if op == "append_quiet_other":
            return lambda: rs.append(strange(), update_activation=False), TypeError
        if op == "append_thing":
            return lambda: rs.append(thing), TypeError
        if op == "append_quiet_thing":
            return lambda: rs.append(thing, update_activation=False), TypeError
        if op == "iadd_other":
            return iadd(strange()), TypeError
        if op == "iadd_ruleset_other":
            return iadd(RuleSet([strange()])), TypeError
        if op == "add_other":
            return lambda: rs + (strange() if z else RuleSet([strange()])), TypeError
        if op == "setrules_thing":
            return setrules(list(rs.rules) + [thing if thing is not None else 7]), TypeError
        if op == "setrules_mixed":
            return setrules(list(rs.rules) + [strange()]), TypeError
        if op == "new_thing":
            return lambda: RuleSet(list(rs.rules) + [thing if thing is not None else 7]), TypeError
        if op == "sort_unknown":
            return (lambda: rs.sort(criterion="no_such_figure")), ValueError if len(rs) else None
        if op == "sort_things":
            return (lambda: rs.sort(criterion="condition", reverse=bool(z))), TypeError if len(rs) > 1 else None
        if op == "append_length":
            return lambda: rs.append(r), ValueError
        if op == "iadd_length":
            return iadd(r), ValueError
        if op == "add_length":
            return lambda: rs + r, ValueError
        if op == "iadd_ruleset_length":
            return iadd(RuleSet([r])), ValueError
        if op == "setrules_length":
            return setrules(list(rs.rules) + [r]), ValueError
        if op == "fit_method":
            return lambda: rs.fit(y=self.y(z), xs=self.xs(z), method="mse"), IndexError
        if op == "eval_method":
            return lambda: rs.eval(y=self.y(z), xs=self.xs(z), method="mse"), IndexError
        if op in ("bounds", "names") and not len(rs):
            return None
        if op == "bounds":
            return setter("bmins" if z else "bmaxs", [0.0] * (len(rs[k % len(rs)]) + 1)), (ValueError, IndexError)
        if op == "names":
            return setter("features_names" if z else "features_indexes", ["n%d" % i if z else i for i in range(len(rs[k % len(rs)]) + 1)]), (ValueError, IndexError)
        missing = scratch_file("no_such_file_%d" % k)
        if op.endswith("thresholds"):
            broken = scratch_file("broken.json")
            broken.write_text('{"coverage": {"min": 0.9}')
            if op == "thresholds":
                return (lambda: rs[k % len(rs)].set_thresholds(broken)), ValueError if len(rs) else None
            return lambda: (RegressionRule if self.kind == "reg" else ClassificationRule).SET_THRESHOLDS(broken), ValueError
        if op == "load_missing":
            return lambda: rs.load(missing), FileNotFoundError
        if op == "load_garbage":
            bad = scratch_file("garbage.csv")
            good = RuleSet([self.rule(i, ds=z) for i in range(len(self.pool))])
            df = good.to_df()
            at = k % len(self.pool)
            if k % 3 == 0:
                df["bmins"] = [v if i != at else "[0.1, " for i, v in enumerate(df["bmins"])]
            elif k % 3 == 1:
                df["unknown"] = 1
            else:
                df = df.drop(columns=["bmins"])
            df.to_csv(bad)
            return lambda: rs.load(bad), Exception
        if op == "getitem":
            return lambda: rs[len(rs) + k], IndexError
        if op == "eval_unfitted":
            alone = self.rule(k)
            return lambda: alone.eval(y=self.y(z), xs=self.xs(z)), ValueError
        if op == "fit_narrow":
            return lambda: rs.fit(y=self.y(z), xs=x), Exception
        if op == "calc_narrow":
            return lambda: rs.calc_activation(x), Exception
        if op in NOTHING:
            if not len(rs):
                return None
            none, target = head(self.xs(z), 0), head(self.y(z), 0) if k % 2 else self.y(z)
            one = rs[k % len(rs)]
            if op == "rule_empty" and not one.good:
                return None  # figures of a bad rule are NaN, whatever it is asked to look at
            return {"fit_empty": lambda: rs.fit(y=target, xs=none), "eval_empty": lambda: rs.eval(y=target, xs=none),
                    "keep_empty": lambda: rs.eval(y=target, xs=none, keep_new_activations=True),
                    "calc_empty": lambda: rs.calc_activation(none),
                    "rule_empty": [lambda: one.fit(y=target, xs=none), lambda: one.eval(y=target, xs=none),
                                   lambda: one.calc_activation(none)][k % 3]}[op], NothingToDo
        if op in ("fit_rows", "eval_rows"):
            # not as many targets as rows
            if not self.case["stacked"] or not len(rs) or self.quiet or not self.fitted or not all(r.activation_available and r.good for r in rs):
                return None
            y = head(self.y(z), -1) if k % 2 or isinstance(self.y(z), np.ndarray) else pd.concat([self.y(z), self.y(z)])
            if op == "fit_rows":
                return lambda: rs.fit(y=y, xs=self.xs(z)), (IndexError, ValueError)
            return lambda: rs.eval(y=y, xs=self.xs(z), keep_new_activations=k > 7), (IndexError, ValueError)
        if op == "eval_narrow":
            return lambda: rs.eval(y=self.y(z), xs=x), Exception
        if op == "keep_narrow":
            return lambda: rs.eval(y=self.y(z), xs=x, keep_new_activations=True), Exception
        if op == "predict_narrow":
            return lambda: rs.predict(x), Exception
        if op in ("names_twice", "bounds_text", "condition_and") and not len(rs):
            return None
        if op == "names_twice":
            n = len(rs[k % len(rs)])
            if n < 2:
                return None
            return setter("features_names" if z else "features_indexes", ["n"] * n if z else [0] * n), DuplicatedFeatures
        if op == "bounds_text":
            return setter("bmins" if z else "bmaxs", "[0.1, "), Exception
        if op == "rule_type":

            def rule_type():
                rs.rule_type = [int, str, RuleSet][k % 3]
            return rule_type, TypeError
        if op == "condition_and":
            c = rs[k % len(rs)].condition
            # the same feature at another position
            clash = HyperrectangleCondition(features_indexes=[max(c.features_indexes) + 1 + z], bmins=[0.0], bmaxs=[1.0],
                                            features_names=[c.features_names[0]])
            return lambda: c & clash, IndexError
        if op == "condition_new":
            return lambda: HyperrectangleCondition(features_indexes=[0], bmins=[0.0, 1.0], bmaxs=[1.0], features_names=["n"]), ValueError
        if op == "duplicates":
            if not len(rs):
                return None

            def dup():
                RuleSet.CHECK_DUPLICATED = True
                try:
                    self.rs.rules = list(rs.rules) + [rs[k % len(rs)]]
                finally:
                    RuleSet.CHECK_DUPLICATED = False
            return dup, ValueError

    def snap(self):
        out = snap_ruleset(self.rs)
        out["stack"] = self.rs.stack_activation
        out["all"] = [snap_rule(r) for r in self.rules]
        out["thresholds"] = [limits_of(r) for r in self.rs]
        if self.stale:
            for part in [out] + out["rules"] + out["all"]:
                del part["criterion"], part["test_set_size"]
        return out

    def options(self):
        return {"stack": self.rs.stack_activation, "rules": [str(r.condition) for r in self.rs],
                "names": sorted(self.rs.features_names), "thresholds": [limits_of(r) for r in self.rs],
                "new rule": limits_of(m.make_rule(self.kind, self.pool[0], self.names))}


def check(case):
    from ruleskit import ClassificationRule, RegressionRule, RuleSet

    m.apply_storage(case["storage"])
    RuleSet.STACKED_FIT = case["stacked"]
    if case.get("limits") == "class":
        (RegressionRule if case["kind"] == "reg" else ClassificationRule).SET_THRESHOLDS(limits_file(case))
    with_, without = World(case), World(case)
    out, refused = [], 0
    need_same(without.snap(), with_.snap(), "start")
    for step, (op, k, z) in enumerate(case["ops"]):
        what = f"step {step} ({op})"
        if op in GOOD:
            # what failed in one world may have changed figures there: the other world follows at the next fit
            without.dirty = with_.dirty
            did = with_.good(op, k, z)
            need(without.good(op, k, z) == did, lambda: f"{what}: possible: {did}, but not without the refused operations")
            if not did:
                continue
            out.append(op)
        else:
            todo = with_.bad(op, k, z)
            if todo is None or todo[1] is None:
                continue
            f, error = todo
            before = with_.rs
            opts = with_.options()
            try:
                got = f()
            except error:
                pass
            else:
                if error is NothingToDo:
                    need(got is None or got == [], lambda: f"{what} gave {got!r}")
                else:
                    need(False, lambda: f"{what} was accepted, and gave {got!r}")
            need(with_.rs is before, f"{what}: another ruleset")
            refused += 1
            out.append(op)
            need_same(opts, with_.options(), f"{what}: after it was refused")
            if op in DIRTY:
                with_.dirty = True
                if op[:4] in ("eval", "keep"):
                    with_.stale = without.stale = True
        if not with_.dirty:
            need_same(without.snap(), with_.snap(), what)
    if refused and any(o in GOOD for o in out):
        out.append("nt")
    return out


# ------------------------------------------------------------------------------------------- storage that fails
class Fault:
    """The k-th write to a file fails, as on a full disk."""

    def __init__(self, k, kind):
        self.k, self.kind, self.n, self.hit = k, kind, 0, False

    def __enter__(self):
        self.old = {"save": np.save, "touch": Path.touch, "open": builtins.open, "load": np.load}
        fault = self

        def count(name, old):
            def f(*a, **kw):
                if name == "open" and (len(a) < 2 or "w" not in str(a[1]) or "ACTIVATION" not in str(a[0])):
                    return old(*a, **kw)
                if name == fault.kind:
                    fault.n += 1
                    if fault.n == fault.k:
                        fault.hit = True
                        raise OSError(28, "No space left on device (injected)")
                return old(*a, **kw)
            return f

        np.save = count("save", self.old["save"])
        Path.touch = count("touch", self.old["touch"])
        builtins.open = count("open", self.old["open"])
        np.load = count("load", self.old["load"])
        return self

    def __exit__(self, *exc):
        np.save, Path.touch, builtins.open, np.load = (self.old[k] for k in ("save", "touch", "open", "load"))
        return False


@st.composite
def fault_strat(draw, tier):
    d = draw(m.dims(3))
    sets = []
    for _ in range(2):
        t = draw(m.table(d, min_n=2, max_n=8, big=40))
        sets.append({"table": t, "y": draw(m.y_reg(m.n_rows(t))), "how": draw(m.input_kind()), "how_y": draw(m.y_kind())})
    return {"names": draw(m.names_for(d)), "pool": draw(m.conds(d, 2, 5, many=True)), "sets": sets, "stacked": draw(st.booleans()),
            "stack": draw(st.booleans()), "dtype": draw(st.sampled_from(["str", "ndarray"])), "compare": draw(st.booleans()),
            "ops": [[draw(st.sampled_from(["append", "iadd", "iadd_ruleset", "fit", "calc", "rule_fit", "eval", "keep", "predict", "and", "copy",
                                           "deepcopy", "slice", "setrules"])),
                     draw(st.integers(0, 7)), draw(st.integers(0, 1)), draw(st.integers(1, 4)), draw(st.sampled_from(["save", "touch", "open", "load", "load"]))]
                    for _ in range(draw(st.integers(1, 5)))]}


def check_fault(case):
    from ruleskit import RuleSet

    m.apply_storage({"dtype": case["dtype"], "will_compare": case["compare"], "store_raw": False, "force_stat": False, "local": True})
    RuleSet.STACKED_FIT = case["stacked"]
    names, pool = case["names"], case["pool"]
    data = [{"rows": m.rows(s["table"]), "y": m.expand_y(s["y"])} for s in case["sets"]]
    acts = [[m.act(c, dd["rows"]) for c in pool] for dd in data]

    def xs(k):
        return m.make_xs(data[k]["rows"], names, case["sets"][k]["how"])

    def y(k):
        return m.make_y(data[k]["y"], case["sets"][k]["how_y"])

    def make(i, ds):
        r = m.make_rule("reg", pool[i], names)
        r.fit(y=y(ds), xs=xs(ds))
        return r

    n0 = max(1, len(pool) // 2)
    rules = [make(i, 0) for i in range(n0)]
    rs = RuleSet(list(rules), stack_activation=case["stack"])
    rs.fit(y=y(0), xs=xs(0))
    bystanders = [make(i, 0) for i in range(len(pool))]  # never touched
    other = RuleSet(list(bystanders), stack_activation=True)
    seen = snap_ruleset(other)
    held, ids, nxt, hits, out = 0, list(range(n0)), n0, 0, []

    def verify(what):
        need_same(seen, snap_ruleset(other), f"{what}: a ruleset that took no part")
        need([id(r) for r in rs] == [id(rules[i]) for i in ids], lambda: f"{what}: rules {[str(r) for r in rs]}")
        for i in ids:
            m.need_act(rules[i].activation, acts[held][i], f"{what}: rule {i}")
        want = [1 if any(acts[held][i][j] for i in ids) else 0 for j in range(len(data[held]["rows"]))]
        m.need_act(rs.activation, want, f"{what}: activation of the ruleset")
        if case["stack"]:
            need(rs.stacked_activations is not None and list(rs.stacked_activations.columns) == [str(rules[i].condition) for i in ids],
                 lambda: f"{what}: stacked activations {rs.stacked_activations}")
            for q, i in enumerate(ids):
                m.need_act(rs.stacked_activations.iloc[:, q].values, acts[held][i], f"{what}: stacked activation of rule {i}")
        else:
            need(rs.stacked_activations is None, f"{what}: stacked activations that were not asked for")
        need(rs.stack_activation == case["stack"], f"{what}: stack_activation is {rs.stack_activation}")

    verify("start")
    for step, (op, k, z, nth, fkind) in enumerate(case["ops"]):
        what = f"step {step} ({op}, {fkind} {nth} failing)"
        clean = True  # nothing changes when it fails
        after = None
        result = [None]
        if op in ("append", "iadd", "iadd_ruleset"):
            if nxt >= len(pool):
                continue
            r = make(nxt, held)
            add = RuleSet([r]) if op == "iadd_ruleset" else r
            rules.append(r)
            now = nxt
            nxt += 1

            def f():
                nonlocal rs
                if op == "append":
                    rs.append(add)
                else:
                    rs += add

            def after():
                ids.append(now)
        elif op in ("fit", "calc", "keep"):
            clean = False

            def f():
                if op == "fit":
                    rs.fit(y=y(z), xs=xs(z))
                elif op == "keep":
                    rs.eval(y=y(z), xs=xs(z), keep_new_activations=True)
                else:
                    rs.calc_activation(xs(z))

            def after():
                nonlocal held
                held = z
        elif op == "rule_fit":
            i = ids[k % len(ids)]

            def f():
                rules[i].calc_activation(xs(held))
        elif op == "eval":
            clean = False

            def f():
                rs.eval(y=y(z), xs=xs(z))
        elif op == "predict":
            def f():
                result[0] = list(rs.predict(xs(z)))
        elif op == "and":
            i, j = ids[k % len(ids)], ids[(k // 2) % len(ids)]

            def f():
                result[0] = list((rules[i] & rules[j]).activation)

            def after():
                m.need_act(result[0], [a & b for a, b in zip(acts[held][i], acts[held][j])], f"{what}: AND")
        elif op in ("copy", "deepcopy"):
            i = ids[k % len(ids)]

            def f():
                result[0] = list((copy if op == "copy" else deepcopy)(rules[i]._activation).raw)

            def after():
                m.need_act(result[0], acts[held][i], f"{what}: copy")
        elif op == "slice":
            cut = 1 + k % len(ids)

            def f():
                result[0] = list(rs[:cut].activation)

            def after():
                m.need_act(result[0], [1 if any(acts[held][i][j] for i in ids[:cut]) else 0 for j in range(len(data[held]["rows"]))],
                           f"{what}: activation of a slice")
        else:
            def f():
                rs.rules = [rules[i] for i in ids]
        failed = False
        with Fault(nth, fkind) as fault:
            try:
                f()
            except OSError as e:
                need("injected" in str(e), lambda: f"{what}: {e!r}")
                failed = True
        if failed:
            hits += 1
            out.append("failed_" + op)
            need_same(seen, snap_ruleset(other), f"{what}: a ruleset that took no part")
            need(rs.stack_activation == case["stack"], lambda: f"{what}: after it failed stack_activation is {rs.stack_activation}")
            if clean:
                verify(what + ": after it failed")
            f()
        elif fault.hit:
            out.append("survived_" + op)
        if after is not None:
            after()
        verify(what + (": tried again" if failed else ""))
    if hits:
        out.append("nt")
    return out


LAWS = [
    Law("refused", strat, check, quick=2000, rule="some operation was refused, and some other one succeeded"),
    Law("faults", fault_strat, check_fault, quick=1200, rule="a write to, or a read from, the storage directory failed during an operation"),
]
