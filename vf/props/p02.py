"""P02: statistics and profiling accessors of an activation tell the truth and change nothing."""
from hypothesis import strategies as st

from ..core import Law
from ..gen import bits, long_bits, config, apply_config, act_spec, make_activation, need, nontrivial_bits
from .p01 import check_view, PROFILING, VIEWS

ASSUMPTIONS = ["vectors are not empty"]
STATS = ["nones", "coverage", "entropy", "rel_entropy", "length", "len", "ones"]


def strat(tier):
    return st.fixed_dictionaries({
        "bits": bits(tier), "spec": act_spec(), "cfg": config(),
        "ops": st.lists(st.sampled_from(STATS + PROFILING + VIEWS[:6]), min_size=2, max_size=12),
    })


def long_strat(tier):
    return st.fixed_dictionaries({
        "bits": long_bits(), "spec": act_spec(["raw_ubyte", "raw_bool", "bitarray", "integer", "compressed_str", "compressed_array", "path", "lazy"]),
        "cfg": config(), "ops": st.lists(st.sampled_from(STATS), min_size=1, max_size=3),
    })


COUNTS = ["n_written", "n_read", "n_compressed_to_raw", "n_raw_to_compressed", "n_raw_to_bitarray", "n_raw_to_integer"]


def check(case):
    b = case["bits"]
    apply_config(case["cfg"])
    a = make_activation(b, case["spec"])
    fmt0 = a.data_format
    counts = {c: getattr(a, c) for c in COUNTS}
    for op in case["ops"]:
        if op in PROFILING:
            got = getattr(a, op)
            need(isinstance(got, (int, float)) and (got == -1 or got >= 0), lambda: f"{op} is {got!r}")
        else:
            check_view(a, b, op)
        for c in COUNTS:
            now = getattr(a, c)
            need(now >= counts[c], lambda: f"counter {c} went from {counts[c]} to {now}")
            counts[c] = now
    need(a.data_format == fmt0 or case["spec"]["fmt"] == "lazy",
         lambda: f"storage format went from {fmt0} to {a.data_format}")
    for v in STATS + ["raw"]:
        check_view(a, b, v)
    out = ["stored_" + str(a.data_format), case["spec"]["fmt"]]
    if case["cfg"]["force_stat"] and any(o in PROFILING for o in case["ops"]):
        out.append("forced_profiling")
    if nontrivial_bits(b):
        out.append("nt")
    return out


def delete_strat(tier):
    return st.fixed_dictionaries({
        "bits": bits(tier), "spec": act_spec([f for f in ("raw_ubyte", "bitarray", "integer", "compressed_str", "path")]),
        "cfg": config(), "stats": st.lists(st.sampled_from(["nones", "coverage", "entropy", "rel_entropy"]), min_size=1),
    })


def check_delete(case):
    """Statistics computed before the data are deleted remain available after."""
    b = case["bits"]
    apply_config(dict(case["cfg"], force_stat=False))
    a = make_activation(b, case["spec"])
    for s in case["stats"]:
        check_view(a, b, s)
    a.delete()
    for s in case["stats"]:
        check_view(a, b, s)
    check_view(a, b, "length")
    return ["nt"] if nontrivial_bits(b) else []


def clear_strat(tier):
    return st.fixed_dictionaries({
        "bits": bits(tier), "spec": act_spec(), "cfg": config(),
        "before": st.lists(st.sampled_from(STATS + VIEWS[:6]), max_size=5),
        "after": st.lists(st.sampled_from(STATS + VIEWS[:6]), min_size=1, max_size=6),
    })


def check_clear(case):
    """clear() leaves a vector of zeros of the same length, with matching statistics."""
    b = case["bits"]
    apply_config(dict(case["cfg"], force_stat=False))
    a = make_activation(b, case["spec"])
    for v in case["before"]:
        check_view(a, b, v)
    a.clear()
    for v in case["after"] + ["raw", "nones", "entropy", "length"]:
        check_view(a, "0" * len(b), v)
    return ["nt", case["spec"]["fmt"]] if "1" in b else []


LAWS = [
    Law("stats", strat, check, quick=5000, rule="the vector has both zeros and ones; statistics, profiling accessors "
        "and conversions are called in a drawn order"),
    Law("long", long_strat, check, quick=60, rule="the vector has both zeros and ones and more than 65535 points"),
    Law("after_delete", delete_strat, check_delete, quick=1200, rule="the vector has both zeros and ones"),
    Law("after_clear", clear_strat, check_clear, quick=1200, rule="the vector has some ones"),
]
