"""Shared generators and reference oracles for conditions, tables, rules and rulesets.

Cases are plain data: NaN and infinities are written as the strings "nan", "inf", "-inf".
"""
import math
import random

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from .gen import need

NAN = float("nan")


def num(x):
    return float(x) if isinstance(x, str) else x


def nums(xs):
    return [num(x) for x in xs]


def isnan(x):
    if x is None:
        return True
    if isinstance(x, str):
        return False
    try:
        return bool(math.isnan(float(x)))
    except (TypeError, ValueError):
        return False


# -------------------------------------------------------------------------------------------- values
GRID = [-3, -2, -1, 0, 1, 2, 3, 0.5, -0.5, 1.5, 2.25, 0.1, -1.0, 2.0]
WILD = ["inf", "-inf", 1e300, -1e300, 1e-300, 1000000, -0.0, 0.30000000000000004, 0.3]


MODERATE = [(-1, 2), (0, 3), (-3, 0.5), (-2, 2), (0.1, "inf"), ("-inf", 1), (-2.5, 1.5), (0, 2.25), (-3, 1), (-0.5, 3)]


def bound():
    return st.one_of(st.sampled_from(GRID), st.sampled_from(GRID), st.sampled_from(GRID), st.sampled_from(WILD))


def cell(missing=True):
    g = [st.sampled_from(GRID)] * 5 + [st.sampled_from(WILD)]
    if missing:
        g += [st.just("nan")]
    return st.one_of(*g)


INDEX_KINDS = ["range", "offset", "reversed", "str", "dup", "date", "float", "multi"]


def make_index(kind, n):
    if kind == "range":
        return pd.RangeIndex(n)
    if kind == "offset":
        return pd.Index([10 + 3 * i for i in range(n)])
    if kind == "reversed":
        return pd.Index(list(range(n))[::-1])
    if kind == "str":
        return pd.Index([f"r{(i * 7) % n}_{i}" for i in range(n)])
    if kind == "dup":
        return pd.Index([i // 2 for i in range(n)])
    if kind == "date":
        return pd.date_range("2020-01-01", periods=n)
    if kind == "float":
        return pd.Index([i / 4 for i in range(n)])
    if kind == "multi":
        return pd.MultiIndex.from_tuples([(f"d{(i * 3) % 5}", i // 2) for i in range(n)], names=["day", "object"])
    raise AssertionError(kind)


# Names are chosen so that alphabetical order, order of position, and substring relations all differ
NAMES = ["b", "a", "X_1", "X_0", "X_10", "c d", "é", "A"]


# Names that only differ far from their start, or by a space, a case or a sign
LONG = [f"average of the daily returns over the last month {i}" for i in range(16)]
CLOSE = ["a", " a", "a ", "A", "a b", "a  b", "-a", "a.b"]


def names_for(d):
    """d distinct feature names, in an order unrelated to the alphabetical one."""
    plain = st.just([f"X_{i}" for i in range(d)])
    if d > len(NAMES):
        kinds = [plain, st.permutations([f"X_{i}" for i in range(d)]).map(list)]
    else:
        kinds = [plain, st.permutations(NAMES).map(lambda p: list(p)[:d])]
    rare = [st.permutations(v).map(lambda p: list(p)[:d]) for v in (LONG, CLOSE) if d <= len(v)]
    return st.integers(0, 9).flatmap(lambda k: kinds[k % 2] if k < 8 or not rare else rare[k % len(rare)])


# -------------------------------------------------------------------------------------------- tables
@st.composite
def table(draw, d, min_n=1, max_n=12, missing=True, big=0):
    """A table of d columns: explicit cells, or (for big ones) a seed expanded by ``rows``."""
    size = draw(st.integers(0, 59)) if big else 1
    if size == 59 and not d > 5:
        # sizes around which a block, a narrow integer type or a cut would show
        return {"seed": draw(st.integers(0, 10 ** 6)), "n": draw(st.sampled_from([128, 255, 256, 257, 300, 1024, 1025, 2600])),
                "d": d, "missing": missing, "spread": draw(st.booleans())}
    if d > 5 or big and size >= 53:
        return {"seed": draw(st.integers(0, 10 ** 6)), "n": draw(st.integers(13, max(big, 20))), "d": d, "missing": missing,
                "spread": draw(st.booleans())}
    n = draw(st.one_of(st.integers(min_n, max_n), st.integers(max(min_n, max_n // 2), max_n)))
    return {"rows": [[draw(cell(missing)) for _ in range(d)] for _ in range(n)]}


def rows(t):
    if "rows" in t:
        return [nums(r) for r in t["rows"]]
    rng = random.Random(t["seed"])
    pool = GRID * 4 + WILD + (["nan"] if t["missing"] else [])
    if t.get("spread"):  # values off the grid of the bounds
        return [[num(rng.choice(pool)) if rng.random() < 0.3 else rng.uniform(-4, 4) for _ in range(t["d"])]
                for _ in range(t["n"])]
    return [[num(rng.choice(pool)) for _ in range(t["d"])] for _ in range(t["n"])]


def whole(values):
    """All of them could be stored as integers."""
    return all(v == v and abs(v) < 2 ** 31 and v == int(v) for v in values)


def as_array(rws, ints=False):
    if ints and all(whole(r) for r in rws):
        return np.array(rws, dtype=float).astype(np.int32 if len(rws) % 2 else np.int64)
    return np.array(rws, dtype=float)


def as_table(rws, names, perm=None, index="range", extra=None, ints=False):
    df = pd.DataFrame({n: [r[i] for r in rws] for i, n in enumerate(names)}, columns=list(names), dtype=float)
    if ints:
        for i, n in enumerate(names):
            if whole([r[i] for r in rws]):
                df[n] = df[n].astype(np.int32 if i % 2 else np.int64)
    if perm is not None:
        df = df[[names[i] for i in perm]]
    if extra == "str":
        df.insert(0, "zz_text", ["t"] * len(rws))
    elif extra == "number":
        df.insert(len(df.columns), 7, range(len(rws)))
    elif extra == "nan":
        df.insert(len(df.columns) // 2, "zz_nan", [NAN] * len(rws))
    df.index = make_index(index, len(rws))
    return df


def input_kind():
    return st.fixed_dictionaries({
        "kind": st.sampled_from(["array", "table"]),
        "perm_seed": st.integers(0, 30),
        "index": st.sampled_from(INDEX_KINDS),
        "extra": st.sampled_from([None, None, "str", "nan", "number"]),
        "ints": st.booleans(),
    })


def make_xs(rws, names, how):
    if how["kind"] == "array":
        return as_array(rws, how.get("ints"))
    perm = list(range(len(names)))
    random.Random(how["perm_seed"]).shuffle(perm)
    return as_table(rws, names, perm, how["index"], how["extra"], how.get("ints"))


def make_y(values, how_y):
    """values: plain list. how_y: 'array' or an index kind (series), and possibly ':' and the type of the values: 'int' (the
    smallest one, if they are whole numbers) or 'object'."""
    how_y, _, dtype = how_y.partition(":")
    text = any(isinstance(v, str) for v in values)
    arr = np.array(values)
    if dtype == "object" and text:
        arr = np.array(values, dtype=object)
    elif dtype == "int" and len(values) and not text and whole(values):
        arr = arr.astype(np.min_scalar_type(int(min(values))) if min(values) < 0 and -min(values) > max(values)
                         else np.int8 if max(abs(v) for v in values) < 128 else np.int32)
    if how_y == "array":
        return arr
    return pd.Series(arr if dtype else values, index=make_index(how_y, len(values)))


class Reuse:
    """Gives what it is given or, when on, the object given the time before, changed in place to hold the same as the new
    one: users fill the same buffer over and over."""

    def __init__(self, on):
        self.on, self.held = on, {}

    def __call__(self, slot, new):
        old = self.held.get(slot)
        if not self.on or old is None or type(old) is not type(new) or old.shape != new.shape:
            self.held[slot] = new
            return new
        if isinstance(new, pd.DataFrame):
            if not (old.columns.equals(new.columns) and old.index.equals(new.index)):
                self.held[slot] = new
                return new
            for c in new.columns:
                old[c] = new[c].to_numpy()
        elif old.dtype != new.dtype or (isinstance(new, pd.Series) and not old.index.equals(new.index)):
            self.held[slot] = new
            return new
        elif isinstance(new, pd.Series):
            old.iloc[:] = new.to_numpy()
        else:
            old[...] = new
        return old


def resized(values, n):
    return (list(values) * (n // len(values) + 1))[:n]


def y_kind():
    return st.builds(lambda k, t: k + t, st.one_of(st.just("array"), st.sampled_from(INDEX_KINDS)),
                     st.sampled_from(["", "", "", ":int", ":object"]))


# -------------------------------------------------------------------------------------------- conditions
@st.composite
def cond_spec(draw, d, min_f=1, max_f=3, possible=False, wide=False):
    """A condition over at least one of d features: positions (in any order), lower and upper bounds."""
    if d > 4 and draw(st.booleans()):
        max_f = 9
    k = draw(st.integers(min_f, min(d, max_f)))
    feats = list(draw(st.permutations(range(d))))[:k]
    mins, maxs = [], []
    for _ in range(k):
        if wide and draw(st.booleans()):
            a, b = draw(st.sampled_from(MODERATE))
            mins.append(a)
            maxs.append(b)
            continue
        a, b = draw(bound()), draw(bound())
        flip = possible or draw(st.integers(0, 5)) != 0
        if flip and num(a) > num(b):
            a, b = b, a
        if wide and draw(st.booleans()):
            b = draw(st.sampled_from([3, 1e301, "inf"]))
            if num(a) > num(b):
                a = -3
        mins.append(a)
        maxs.append(b)
    return {"f": feats, "lo": mins, "hi": maxs}


def make_condition(spec, names, sort=True, positions=None):
    from ruleskit import HyperrectangleCondition

    pos = positions if positions is not None else list(range(len(names)))
    return HyperrectangleCondition(
        features_indexes=[pos[i] for i in spec["f"]], bmins=nums(spec["lo"]), bmaxs=nums(spec["hi"]),
        features_names=[names[i] for i in spec["f"]], sort=sort,
    )


def canon(spec):
    return frozenset((f, float(num(a)), float(num(b))) for f, a, b in zip(spec["f"], spec["lo"], spec["hi"]))


def impossible(spec):
    return any(num(a) > num(b) for a, b in zip(spec["lo"], spec["hi"]))


def meets(spec, row):
    for f, a, b in zip(spec["f"], spec["lo"], spec["hi"]):
        v = row[f]
        if math.isnan(v) or math.isinf(v):
            return False
        if not (num(a) <= v <= num(b)):
            return False
    return True


def act(spec, rws):
    return [1 if meets(spec, r) else 0 for r in rws]


def conds(d, min_size=1, max_size=5, wide=True, possible=False, many=False):
    """Distinct conditions. many: now and then, more than ten of them."""
    few = st.lists(cond_spec(d, wide=wide, possible=possible), min_size=min_size, max_size=max_size, unique_by=canon)
    if not many:
        return few
    lots = st.lists(cond_spec(d, wide=wide, possible=possible), min_size=10, max_size=22, unique_by=canon)
    return st.integers(0, 14).flatmap(lambda k: lots if k == 14 else few)


def dims(top=3):
    """Number of features: small, now and then more, or over ten."""
    return st.integers(0, 29).flatmap(
        lambda k: st.integers(11, 13) if k == 29 else st.integers(5, 8) if k == 28 else st.integers(1, top))


def nontrivial_act(a):
    return 0 < sum(a) < len(a)


# -------------------------------------------------------------------------------------------- comparing numbers
def close(x, y, rtol=1e-9, atol=1e-9):
    """NaN (or None) equals NaN; infinities equal themselves."""
    if isnan(x) or isnan(y):
        return isnan(x) and isnan(y)
    if isinstance(x, str) or isinstance(y, str):
        return type(x) is type(y) and x == y
    x, y = float(x), float(y)
    if math.isinf(x) or math.isinf(y):
        return x == y
    return abs(x - y) <= atol + rtol * max(abs(x), abs(y))


def same_class(x, y):
    if isnan(x) or isnan(y):
        return isnan(x) and isnan(y)
    if isinstance(x, str) != isinstance(y, str):
        return False
    return x == y


def same_vector(got, want, eq=close):
    got = list(got)
    return len(got) == len(want) and all(eq(g, w) for g, w in zip(got, want))


def need_act(got, want, what):
    g = np.asarray(got)
    need(g.shape == (len(want),) and all(float(a) == b for a, b in zip(g, want)),
         lambda: f"{what}: got {list(g)}, expected {want}")


def mean(vals):
    return math.fsum(vals) / len(vals)


def std1(vals):
    m = mean(vals)
    return math.sqrt(math.fsum((v - m) ** 2 for v in vals) / (len(vals) - 1))


def std0(vals):
    m = mean(vals)
    return math.sqrt(math.fsum((v - m) ** 2 for v in vals) / len(vals))


# -------------------------------------------------------------------------------------------- targets
YGRID = [-4, -2, -1, -0.5, 0, 0.25, 1, 2, 3, 7, 0.1, 100.5]


def y_reg(n, missing=None):
    """Targets of a regression: explicit for short ones, seeded for long ones. Some are missing, if not told otherwise."""
    if missing is None:
        return st.integers(0, 5).flatmap(lambda k: y_reg(n, k == 0))
    if n > 40:
        return st.tuples(st.integers(0, 10 ** 6), st.integers(0, 3)).map(
            lambda s: dict({"seed": s[0], "missing": missing, "n": n}, **({"whole": True} if s[1] == 3 else {})))
    if n > 0 and not missing:
        return st.integers(0, 4).flatmap(lambda k: st.lists(st.sampled_from(WHOLE), min_size=n, max_size=n) if k == 4 else _y_reg(n, missing))
    return _y_reg(n, missing)


# sums of them leave the range of a byte
WHOLE = [100, 120, -100, -128, 7, 0, 1, 100, 101]


def _y_reg(n, missing):
    g = [st.sampled_from(YGRID)] * 6 + [st.floats(-1000, 1000, allow_nan=False).map(lambda v: round(v, 3))]
    if missing:
        g += [st.just("nan")]
    return st.lists(st.one_of(*g), min_size=n, max_size=n)


def expand_y(y):
    if isinstance(y, dict):
        rng = random.Random(y["seed"])
        if y.get("whole"):
            return [float(rng.choice(WHOLE)) for _ in range(y["n"])]
        pool = YGRID + (["nan"] if y.get("missing") else [])
        return [num(rng.choice(pool)) + 0.0 if rng.random() < 0.7 else round(rng.uniform(-1000, 1000), 3)
                for _ in range(y["n"])]
    return [float(num(v)) for v in y]


CLASS_SETS = [
    [0, 1], [0, 1, 2], [3, 1, 2], [-1, 1], [0.5, 1.5, 0.25], [1.5, 1, -1.5], [10, 9, 100], ["a", "b"], ["b", "a", "c"], ["yes", "no"],
    ["Zero", "one", "two"], ["0", "1", "10"], ["", "x"], ["zero", "x", "y"],
    ["a rather long class name that goes over thirty-two characters", "a rather long class name"],
    ["None", "True"], ["1e5", "2"], ["null", "none", "NA"], ["NaN", "inf", "x"], ["class 1", "Class 1", "class 2"], ["a", " a", "a "], ["\u00e9t\u00e9", "e"], ["e", "b", "d", "a", "c"], [4, 0, 2, 1, 3, 5], ["red", "green", "blue", "black", "white", "grey"],
    [12, 3, 7, 0, 11, 5, 9, 1, 8, 2, 10, 4, 6], ["k%d" % i for i in (7, 3, 11, 0, 9, 2, 10, 5, 1, 8, 4, 6)],
]


def y_class(n):
    def of(classes):
        if n > 40:
            return st.integers(0, 10 ** 6).map(lambda s: {"seed": s, "classes": classes, "n": n})
        return st.lists(st.sampled_from(classes), min_size=n, max_size=n)
    return st.sampled_from(CLASS_SETS).flatmap(of)


def expand_classes(y):
    if isinstance(y, dict):
        rng = random.Random(y["seed"])
        return [rng.choice(y["classes"]) for _ in range(y["n"])]
    return list(y)


def n_rows(t):
    return len(t["rows"]) if "rows" in t else t["n"]


# -------------------------------------------------------------------------------------------- rules
def storage():
    """Where rules keep their activations."""
    from .gen import config

    return st.one_of(
        st.just({"dtype": "str", "will_compare": False, "store_raw": False, "force_stat": False, "local": True}),
        st.tuples(config(), st.booleans()).map(lambda t: dict(t[0], local=t[1])),
    )


def apply_storage(c):
    from ruleskit import Rule, RegressionRule, ClassificationRule
    from .gen import apply_config

    apply_config(c)
    for cls in (Rule, RegressionRule, ClassificationRule):
        cls.LOCAL_ACTIVATION = c["local"]


def make_rule(kind, spec, names, **kw):
    from ruleskit import RegressionRule, ClassificationRule

    return (RegressionRule if kind == "reg" else ClassificationRule)(make_condition(spec, names, **kw))


def reg_stats(a, y, horizon=1):
    """Reference statistics of a regression rule of activation a on targets y (NaN targets left out).

    Values that the documentation does not settle, or that are ill conditioned, are given as "?".
    """
    pts = [v for x, v in zip(a, y) if x]
    ok = [v for v in pts if not math.isnan(v)]
    everything = [v for v in y if not math.isnan(v)]
    pred = mean(ok) if ok else NAN
    if not pts:
        std = NAN
    elif len(pts) == 1:
        std = 0.0 if ok else "?"
    else:
        std = std1(ok) if len(ok) > 1 else "?"
    scale = max([abs(v) for v in everything], default=0)
    if not ok:
        z, sign = NAN, "?"
    else:
        s0 = std0(everything)
        z = abs(pred - mean(everything)) / (math.sqrt(horizon / len(pts)) * s0) if s0 > 1e-6 * scale else "?"
        sign = "-" if pred < 0 else "+"
        if abs(pred) <= 1e-12 * scale and (pred != 0 or any(v * 1024 != int(v * 1024) for v in ok)):
            sign = "?"  # the sign of a rounding error, unless the sum is exact in any order
    return {"prediction": pred, "std": std, "zscore": z, "sign": sign, "coverage": sum(a) / len(a),
            "train_set_size": len(y)}


def need_stats(rule, want, what, scale=1.0):
    for k, w in want.items():
        if isinstance(w, str) and w == "?":
            continue
        got = getattr(rule, k)
        if k == "sign":
            need(got == w, lambda: f"{what}: sign {got!r}, expected {w!r}")
        else:
            need(close(got, w, atol=1e-9 * max(1.0, scale)), lambda: f"{what}: {k} is {got!r}, expected {w!r}")


def vote(counts):
    """The class with the largest count, smallest first; NaN without any."""
    if not counts:
        return NAN
    best = max(counts.values())
    return min(c for c, v in counts.items() if v == best)


def class_counts(a, y):
    out = {}
    for x, v in zip(a, y):
        if x:
            out[v] = out.get(v, 0) + 1
    return out


def success(pred, a, y):
    pts = [v for x, v in zip(a, y) if x]
    if not pts:
        return NAN
    return sum(1 for v in pts if not isnan(pred) and v == pred) / len(pts)


def reg_criterion(pred_vec, y, method):
    """Reference criterion; "?" when ill conditioned."""
    err = [(p, t) for p, t in zip(pred_vec, y) if not isnan(p) and not math.isnan(t)]
    if not err:
        return NAN
    mse = mean([(p - t) ** 2 for p, t in err])
    mae = mean([abs(p - t) for p, t in err])
    if method == "mse":
        return mse
    if method == "mae":
        return mae
    if any(math.isnan(t) for t in y):
        return "?"
    mu = mean(y)
    scale = max(abs(t) for t in y) or 1.0
    srt = sorted(y)
    n = len(y)
    med = srt[n // 2] if n % 2 else (srt[n // 2 - 1] + srt[n // 2]) / 2
    deno = {"mse_norm": mean([(t - mu) ** 2 for t in y]), "mae_norm": mean([abs(t - mu) for t in y]),
            "aae": mean([abs(t - med) for t in y])}[method]
    if deno <= 1e-9 * scale:
        return "?"
    return (mse if method == "mse_norm" else mae) / deno


METHODS = ["mse", "mae", "mse_norm", "mae_norm", "aae"]
