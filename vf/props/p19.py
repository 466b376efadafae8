"""P19: a ruleset is a faithful ordered collection of its rules."""
from collections import Counter

import numpy as np
from hypothesis import strategies as st

from ..core import Law, Violation
from ..gen import need, look, looked_at
from .. import model as m

ASSUMPTIONS = ["a ruleset keeping stacked activations has no two rules with the same condition",
               "duplicates are looked for among rules whose bounds are written the same way",
               "rules are sorted by attributes that are numbers"]

OPS = ["new", "new", "append", "append", "append", "iadd_rule", "iadd_rule", "iadd", "iadd", "add", "add", "add_rule", "setrules", "setnone", "slice",
       "slice", "sort", "sort", "sort", "sort_attr", "sort_attr", "sort_unknown", "contains", "contains", "foreign", "foreign_new",
       "foreign_add", "foreign_iadd", "not_a_rule", "index"]
ATTRS = ["nones", "coverage", "train_set_size", "prediction", "entropy"]


@st.composite
def strat(draw, tier):
    d = draw(m.dims(4))
    pool = draw(m.conds(d, 2, 7))
    t = draw(m.table(d, min_n=2, max_n=8))
    n = m.n_rows(t)
    ops = [["new"] + [draw(st.integers(0, 127)) for _ in range(3)] for _ in range(2)]
    for _ in range(draw(st.integers(2, 14))):
        ops.append([draw(st.sampled_from(OPS))] + [draw(st.integers(0, 127)) for _ in range(3)])
    return {"kind": draw(st.sampled_from(["reg", "reg", "cls"])), "names": draw(m.names_for(d)), "pool": pool, "table": t,
            "y": draw(m.y_reg(n, missing=False)), "fitted": draw(st.sampled_from(["all", "none", "some"])), "ops": ops, "look": draw(look()),
            "stack": draw(st.booleans()), "nlines": draw(st.sampled_from([1, 2, 5])), "floats": draw(st.booleans())}


def check(case):
    from ruleskit import RuleSet

    kind, names, pool = case["kind"], case["names"], case["pool"]
    RuleSet.NLINES = case["nlines"]
    rws = m.rows(case["table"])
    xs = m.as_array(rws)
    y = np.array(m.expand_y(case["y"]))
    if kind == "cls":
        y = np.array([int(abs(v)) % 3 for v in y])

    def fresh(i, k="same"):
        kk = kind if k == "same" else ("cls" if kind == "reg" else "reg")
        r = m.make_rule(kk, pool[i], names)
        if case["fitted"] == "all" or (case["fitted"] == "some" and i % 2 == 0):
            r.fit(xs=xs, y=y if kk == kind else np.array([int(abs(v)) % 3 for v in y]))
        return r

    rules = [fresh(i) for i in range(len(pool))]
    where = {id(r): i for i, r in enumerate(rules)}
    sets = []  # (real, model list of rules, stack)
    out = []

    def subset(mask, shift):
        idx = [i for i in range(len(pool)) if mask >> i & 1]
        if idx:
            k = shift % len(idx)
            idx = idx[k:] + idx[:k]
        return [rules[i] for i in idx]

    def key(r):
        return m.canon(pool[where[id(r)]])

    def verify(what):
        for k, (real, model, _) in enumerate(sets):
            got = list(real)
            need([id(r) for r in got] == [id(r) for r in model],
                 lambda: f"{what}: ruleset {k} holds {[str(r) for r in got]}, expected {[str(r) for r in model]}")
            need(len(real) == len(model) and [id(r) for r in real.rules] == [id(r) for r in model],
                 lambda: f"{what}: ruleset {k} has length {len(real)} / {len(real.rules)}, expected {len(model)}")
            fn = sorted({n for r in model for n in r.features_names})
            fi = sorted({n for r in model for n in r.features_indexes})
            need(sorted(real.features_names) == fn, lambda: f"{what}: ruleset {k} features {real.features_names}, expected {fn}")
            need(sorted(real.features_indexes) == fi,
                 lambda: f"{what}: ruleset {k} positions {real.features_indexes}, expected {fi}")
            count = real.get_features_count()
            want = Counter(n for r in model for n in r.features_names)
            need(dict(count) == dict(want) and len(count) == len(want)
                 and [c for _, c in count] == sorted(want.values(), reverse=True),
                 lambda: f"{what}: ruleset {k} counts features as {count}, expected {want}")
            lines = [str(r) for r in model]
            if len(lines) >= 2 * case["nlines"]:
                lines = lines[:case["nlines"]] + ["..."] + lines[len(lines) - case["nlines"]:]
            need(str(real) == "\n".join(lines), lambda: f"{what}: ruleset {k} is written {str(real)!r}, expected {lines}")

    def new(real, model, stack):
        sets.append((real, model, stack))
        if len(sets) > 4:
            sets.pop(0)

    def refuses(exc, f, what):
        try:
            f()
        except exc:
            return
        raise Violation(f"{what}: not refused")

    def free(s, r):
        """may r be added to s? (no equal rule in a stacked ruleset)"""
        return not s[2] or all(key(r) != key(x) for x in s[1])

    for step, (op, a, b, c) in enumerate(case["ops"]):
        if op == "new":
            lst = subset(a, b)
            given = list(lst)
            if c % 5 == 0:
                given.insert(c % (len(lst) + 1), None)
            keep = list(given)
            stack = case["stack"] and c % 2 == 0
            real = RuleSet(given, stack_activation=stack)
            need(len(given) == len(keep) and all(x is z for x, z in zip(given, keep)), "the list given to RuleSet was changed")
            given.append(rules[0])  # the ruleset must have its own list
            new(real, lst, stack)
        elif op in ("foreign_new", "not_a_rule") and True:
            if op == "foreign_new":
                lst = subset(a | 1, b) + [fresh(c % len(pool), "other")]
                refuses(TypeError, lambda: RuleSet(lst), "RuleSet made of rules of different kinds")
            else:
                refuses(TypeError, lambda: RuleSet(subset(a, b) + [[3, "rule", {}][c % 3]]), "RuleSet made with something else than rules")
                s = sets[a % len(sets)]
                refuses(TypeError, lambda: s[0].append([3, "rule", None][c % 3]), "appending something else than a rule")
                out.append("refused")
        else:
            s = sets[a % len(sets)]
            k = [x is s for x in sets].index(True)
            real, model, stack = s
            r = rules[b % len(rules)]
            if op in ("append", "iadd_rule"):
                if free(s, r):
                    if op == "append":
                        real.append(r, update_activation=not (c % 6 == 0 and not stack))
                    else:
                        before = real
                        real += r
                        need(real is before, "+= made another ruleset")
                    sets[k] = (real, model + [r], stack)
            elif op == "iadd":
                o = sets[b % len(sets)]
                if o is not s and all(free(s, x) for x in o[1]) and (not stack or len({key(x) for x in o[1]}) == len(o[1])):
                    before = real
                    real += o[0]
                    need(real is before, "+= made another ruleset")
                    sets[k] = (real, model + o[1], stack)
            elif op == "add":
                o = sets[b % len(sets)]
                res = real + o[0]
                need(res is not real and res is not o[0], "+ gave back an operand")
                keys = [key(x) for x in res]
                want = {key(x) for x in model + o[1]}
                need(len(keys) == len(set(keys)) and set(keys) == want,
                     lambda: f"union of {[str(x) for x in model]} and {[str(x) for x in o[1]]} is {[str(x) for x in res]}")
                need(all(any(x is z for z in model + o[1]) for x in res), "union holds a rule that is in none of the operands")
                new(res, list(res.rules), stack and o[2])
                out.append("union")
            elif op == "add_rule":
                if free(s, r):
                    res = real + r
                    need(res is not real, "+ gave back an operand")
                    new(res, model + [r], stack)
            elif op == "setrules":
                lst = subset(b, c)
                given = list(lst)
                real.rules = given
                given.append(r)
                sets[k] = (real, lst, stack)
            elif op == "setnone":
                if b % 3 == 0:
                    real.rules = None
                    sets[k] = (real, [], stack)
            elif op == "slice":
                n = len(model)
                sl = slice([None, b % (n + 2), -(b % (n + 2))][b % 3], [None, c % (n + 2), -(c % (n + 2))][c % 3],
                           [None, 1, 2, -1][(b + c) % 4])
                res = real[sl]
                need(isinstance(res, RuleSet), lambda: f"slicing gave a {type(res)}")
                new(res, model[sl], False)
            elif op == "index":
                for i in range(-len(model), len(model)):
                    need(real[i] is model[i], lambda: f"item {i} is {real[i]}, expected {model[i]}")
                refuses(IndexError, lambda: real[len(model)], "item past the end")
            elif op == "sort":
                rev = b % 2 == 1
                real.sort(reverse=True) if rev else real.sort()
                got = list(real)
                need(sorted(map(id, got)) == sorted(map(id, model)),
                     lambda: f"sorting {[str(x) for x in model]} gave {[str(x) for x in got]}")
                for x, z in zip(got, got[1:]):
                    fx, fz = list(x.features_names), list(z.features_names)
                    ok = len(fx) < len(fz)
                    if len(fx) == len(fz):
                        ok = (fx > fz if rev else fx < fz) if fx != fz else (
                            [float(v) for v in x.bmins + x.bmaxs] <= [float(v) for v in z.bmins + z.bmaxs])
                    need(ok, lambda: f"sorted (reverse={rev}) as {[str(v) for v in got]}")
                sets[k] = (real, got, stack)
                if len({len(x) for x in got}) > 1 or len({str(x.features_names) for x in got}) < len(got):
                    out.append("sorted")
            elif op == "sort_attr":
                attr = ATTRS[b % len(ATTRS)]
                rev = c % 2 == 1
                vals = [getattr(x, attr, None) for x in model]
                if model and all(v is not None and not m.isnan(v) for v in vals):
                    real.sort(attr, reverse=rev)
                    got = list(real)
                    need(sorted(map(id, got)) == sorted(map(id, model)),
                         lambda: f"sorting {[str(x) for x in model]} by {attr} gave {[str(x) for x in got]}")
                    v = [float(getattr(x, attr)) for x in got]
                    need(v == sorted(v, reverse=rev), lambda: f"sorted by {attr} (reverse={rev}) as {v}")
                    need([id(x) for x in got] == [id(x) for x in sorted(model, key=lambda x: float(getattr(x, attr)), reverse=rev)],
                         lambda: f"sorted by {attr} (reverse={rev}): equal rules changed places, {[str(x) for x in got]}")
                    sets[k] = (real, got, stack)
                    if len(set(v)) > 1:
                        out.append("sorted_attr")
            elif op == "sort_unknown":
                if model:
                    refuses(ValueError, lambda: real.sort("no_such_thing"), "sorting by an unknown attribute")
            elif op == "contains":
                for i in range(len(pool)):
                    spec = dict(pool[i])
                    if case["floats"]:  # same values written as floats, features given the other way round
                        spec = {"f": spec["f"][::-1], "lo": [float(m.num(v)) for v in spec["lo"]][::-1],
                                "hi": [float(m.num(v)) for v in spec["hi"]][::-1]}
                    q = m.make_rule(kind, spec, names)
                    if b % 2 == 0 and rules[i]._fitted:
                        q.fit(xs=xs, y=y)
                    elif b % 2 == 1 and rules[i]._fitted:
                        q.fit(xs=xs, y=y[::-1].copy())
                    want = any(key(x) == m.canon(pool[i]) and (
                        m.same_class(x.prediction, q.prediction) if (x.prediction is None) == (q.prediction is None) else False)
                        for x in model)
                    got = q in real
                    need(got is want, lambda: f"{q} in {[str(x) for x in model]}: {got}, expected {want}")
                    if want:
                        out.append("contained")
            elif op == "foreign":
                if model:
                    f = fresh(b % len(pool), "other")

                    def inplace():
                        rr = real
                        rr += f
                    refuses(TypeError, (lambda: real.append(f)) if c % 3 == 0 else inplace if c % 3 == 1 else lambda: real + f,
                            "rule of another kind")
                    out.append("refused")
            elif op in ("foreign_add", "foreign_iadd"):
                if model:
                    o = RuleSet([fresh(b % len(pool), "other")])

                    def inplace():
                        rr = real
                        rr += o
                    refuses(TypeError, inplace if op == "foreign_iadd" else lambda: real + o, "ruleset of another kind")
                    need(len(o) == 1, "refused ruleset changed")
                    out.append("refused")
        if looked_at(case["look"], step, len(case["ops"])):
            verify(op)
    if len(out) >= 2 and len(set(out)) >= 2:
        out.append("nt")
    return out


@st.composite
def dup_strat(draw, tier):
    d = draw(m.dims(3))
    pool = draw(m.conds(d, 1, 4))
    t = draw(m.table(d, min_n=2, max_n=8))
    items = draw(st.lists(st.tuples(st.integers(0, len(pool) - 1), st.integers(0, 2)), min_size=1, max_size=5))
    return {"kind": draw(st.sampled_from(["reg", "cls"])), "names": draw(m.names_for(d)), "pool": pool, "table": t,
            "y": draw(m.y_reg(m.n_rows(t), missing=False)), "items": [list(i) for i in items],
            "on": draw(st.sampled_from([True, True, True, False])), "by": draw(st.sampled_from(["build", "name", "index"]))}


def check_dup(case):
    from ruleskit import RuleSet

    kind, names, pool = case["kind"], case["names"], case["pool"]
    rws = m.rows(case["table"])
    y = m.expand_y(case["y"])
    ys = [y, [v + 1 for v in y]]
    if kind == "cls":
        ys = [[int(abs(v)) % 3 for v in yy] for yy in ys]
    rules = []
    for i, k in case["items"]:
        r = m.make_rule(kind, pool[i], names)
        if k < 2:
            r.fit(xs=m.as_array(rws), y=np.array(ys[k]))
        rules.append(r)
    same = False
    for i in range(len(rules)):
        for j in range(i):
            p, q = rules[i].prediction, rules[j].prediction
            if case["items"][i][0] == case["items"][j][0] and (p is None) == (q is None) and m.same_class(p, q):
                same = True
    try:
        if case["by"] == "build":
            RuleSet.CHECK_DUPLICATED = case["on"]
            RuleSet(rules)
        else:
            RuleSet.check_duplicated_rules(rules, case["by"])
        refused = False
    except ValueError:
        refused = True
    on = case["on"] or case["by"] != "build"
    need(refused == (same and on), lambda: f"duplicates {'refused' if refused else 'accepted'} for {[str(r) for r in rules]}")
    return ["nt", "duplicated"] if same else (["nt"] if len(rules) > 1 else [])


@st.composite
def union_strat(draw, tier):
    d = draw(m.dims(3))
    pool = draw(m.conds(d, 1, 5))
    t = draw(m.table(d, min_n=2, max_n=8))
    items = st.lists(st.tuples(st.integers(0, len(pool) - 1), st.integers(0, 2)), max_size=5).map(lambda z: [list(i) for i in z])
    return {"kind": draw(st.sampled_from(["reg", "cls"])), "names": draw(m.names_for(d)), "pool": pool, "table": t,
            "y": draw(m.y_reg(m.n_rows(t), missing=False)), "sets": [draw(items) for _ in range(draw(st.integers(2, 3)))],
            "rule": draw(st.one_of(st.none(), items)), "local": draw(st.booleans())}


def check_union(case):
    """Sums of rulesets whose rules may have the same condition, fitted on the same targets or not (or not at all)."""
    from ruleskit import Rule, RuleSet

    kind, names, pool = case["kind"], case["names"], case["pool"]
    Rule.LOCAL_ACTIVATION = case["local"]
    rws = m.rows(case["table"])
    y = m.expand_y(case["y"])
    ys = [y, [v + 1 for v in y]]
    if kind == "cls":
        ys = [[int(abs(v)) % 3 for v in yy] for yy in ys]

    def make(i, k):
        r = m.make_rule(kind, pool[i], names)
        if k < 2:
            r.fit(xs=m.as_array(rws), y=np.array(ys[k]))
        return r, i

    given = [[make(i, k) for i, k in s] for s in case["sets"]]
    real = [RuleSet([r for r, _ in g]) for g in given]
    total, held = real[0], list(given[0])
    for o, g in zip(real[1:], given[1:]):
        total = total + o
        held = held + g
        got = list(total)
        ids = {id(r): i for r, i in held}
        need(all(id(r) in ids for r in got), lambda: f"the sum holds rules of nobody: {[str(r) for r in got]}")
        have = sorted(ids[id(r)] for r in got)
        need(have == sorted({i for _, i in held}), lambda: f"the sum holds the conditions {have} of {[i for _, i in held]}")
        held = [(r, ids[id(r)]) for r in got]
        want = [1 if any(m.act(pool[i], rws)[j] for r, i in held) else 0 for j in range(len(rws))]
        if got and all(r.activation is not None for r in got):
            m.need_act(total.activation, want, "activation of the sum")
    for o, g in zip(real, given):
        need([id(r) for r in o] == [id(r) for r, _ in g], "adding changed one of the terms")
    for i, k in case["rule"] or []:
        r, _ = make(i, k)
        before = list(total)
        total = total + r
        need([id(q) for q in total] == [id(q) for q in before] + [id(r)], lambda: f"adding {r}: {[str(q) for q in total]}")
    twice = {i for i, _ in case["sets"][0]} & {i for i, _ in case["sets"][1]}
    return ["nt"] if twice else []


@st.composite
def wide_strat(draw, tier):
    d = draw(st.sampled_from([1, 8, 20, 40, 65, 70, 100, 130, 260]))
    return {"kind": draw(st.sampled_from(["reg", "cls"])), "d": d, "seed": draw(st.integers(0, 10 ** 6)),
            "n": draw(st.integers(1, 40)), "per": draw(st.sampled_from([1, 2, 3, 8])), "named": draw(st.sampled_from([True, True, False])),
            "by": draw(st.sampled_from(["build", "append", "iadd", "add", "halves"])), "reverse": draw(st.booleans())}


def check_wide(case):
    """Rulesets of many rules about many features."""
    import random
    from ruleskit import HyperrectangleCondition, ClassificationRule, RegressionRule, RuleSet

    rng = random.Random(case["seed"])
    d, cls = case["d"], RegressionRule if case["kind"] == "reg" else ClassificationRule
    width = len(str(d - 1))
    names = [f"v{i:0{width}d}" for i in range(d)]
    pool = list(range(d))
    rng.shuffle(pool)
    rules, feats = [], []
    for i in range(case["n"]):
        f = [pool.pop() if pool and rng.random() < 0.7 else rng.randrange(d) for _ in range(rng.randint(1, case["per"]))]
        f = sorted(set(f))
        kw = {"features_names": [names[j] for j in f]} if case["named"] else {}
        # bounds differ from one rule to the next
        rules.append(cls(HyperrectangleCondition(features_indexes=list(f), bmins=[i] * len(f), bmaxs=[i + 1 + rng.randrange(5)] * len(f), **kw)))
        feats.append(f)
    order = {id(r): i for i, r in enumerate(rules)}
    by = case["by"]
    if by == "build":
        rs = RuleSet(list(rules))
    elif by == "halves":
        rs = RuleSet(rules[:len(rules) // 2]) + RuleSet(rules[len(rules) // 2:])
    else:
        rs = RuleSet(rules[:1])
        for r in rules[1:]:
            if by == "append":
                rs.append(r)
            elif by == "iadd":
                rs += r
            else:
                rs = rs + r

    def verify(what):
        got = [order[id(r)] for r in rs]
        need(sorted(got) == list(range(len(rules))), lambda: f"{what}: rules {got} of {len(rules)}")
        need(len(rs) == len(rules), lambda: f"{what}: length {len(rs)} for {len(rules)} rules")
        used = sorted({j for f in feats for j in f})
        need(sorted(rs.features_indexes) == used, lambda: f"{what}: positions {rs.features_indexes}, expected {used}")
        if case["named"]:
            need(sorted(rs.features_names) == [names[j] for j in used], lambda: f"{what}: names {rs.features_names}, expected {[names[j] for j in used]}")
        count = rs.get_features_count()
        want = Counter((names[j] if case["named"] else f"X_{j}") for f in feats for j in f)
        need(dict(count) == dict(want) and [c for _, c in count] == sorted(want.values(), reverse=True),
             lambda: f"{what}: features counted as {count}, expected {want}")
        for r in rules:
            need(r in rs, lambda: f"{what}: {r} is not in its ruleset")
        return got

    got = verify(f"made by {by}")
    if by != "halves":
        need(got == list(range(len(rules))), lambda: f"made by {by}: order {got}")
    rs.sort(reverse=case["reverse"])
    got = verify("sorted")
    want = [i for size in sorted({len(f) for f in feats})
            for f in sorted({tuple(feats[i]) for i in range(len(rules)) if len(feats[i]) == size}, reverse=case["reverse"])
            for i in range(len(rules)) if tuple(feats[i]) == f]
    if case["named"]:
        need(got == want, lambda: f"sorted (reverse={case['reverse']}): order {[feats[i] for i in got]}, expected {[feats[i] for i in want]}")
    else:
        sizes = [len(feats[i]) for i in got]
        need(sizes == sorted(sizes), lambda: f"sorted: rules of {sizes} features")
    return ["nt"] if len({j for f in feats for j in f}) > 8 else []


LAWS = [
    Law("wide", wide_strat, check_wide, quick=240, rule="more than eight features"),
    Law("union", union_strat, check_union, quick=800, rule="some condition is in both rulesets"),
    Law("collection", strat, check, quick=1600, rule="at least two of: union, sort, refusal, membership happened"),
    Law("duplicates", dup_strat, check_dup, quick=600, rule="at least two rules"),
]
