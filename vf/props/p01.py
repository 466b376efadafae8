"""P01: an activation gives back exactly the vector it was built from, in every representation, in any access order."""
import numpy as np
from bitarray import bitarray
from copy import copy, deepcopy
from hypothesis import strategies as st

from ..core import Law
from ..gen import (arr, bits, config, apply_config, act_spec, make_activation, same_bits, compress_list, need,
                   nontrivial_bits)

ASSUMPTIONS = ["vectors are not empty", "transparentpath is not installed"]

VIEWS = ["raw", "as_bitarray", "as_integer", "as_compressed", "as_compressed_str", "as_compressed_array", "ones",
         "nones", "coverage", "entropy", "rel_entropy", "length", "len"]
PROFILING = [
    "sizeof_path", "sizeof_file", "sizeof_raw", "sizeof_bitarray", "sizeof_integer", "sizeof_compressed_array",
    "sizeof_compressed_str", "time_write", "time_read", "time_raw_to_compressed", "time_raw_to_integer",
    "time_raw_to_bitarray", "time_compressed_to_raw", "time_bitarray_to_raw", "time_integer_to_raw",
    "time_compressed_to_bitarray", "time_bitarray_to_compressed", "time_integer_to_compressed",
    "time_bitarray_to_integer", "time_integer_to_bitarray", "time_compressed_to_integer",
]


def check_view(a, b, view):
    n = len(b)
    k = b.count("1")
    comp = compress_list(b)
    if view == "raw":
        got = a.raw
        need(isinstance(got, np.ndarray) and same_bits(got, b), lambda: f"raw of {b} is {got!r}")
    elif view == "as_bitarray":
        got = a.as_bitarray
        need(isinstance(got, bitarray) and got == bitarray(b), lambda: f"as_bitarray of {b} is {got!r}")
    elif view == "as_integer":
        got = a.as_integer
        need(isinstance(got, int) and got == int(b, 2), lambda: f"as_integer of {b} is {got!r}")
    elif view in ("as_compressed", "as_compressed_str"):
        got = getattr(a, view)
        need(isinstance(got, str) and [int(x) for x in got.split(",")] == comp, lambda: f"{view} of {b} is {got!r}")
    elif view == "as_compressed_array":
        got = a.as_compressed_array
        need(isinstance(got, np.ndarray) and got.tolist() == comp, lambda: f"{view} of {b} is {got!r}")
    elif view == "ones":
        got = a.ones
        need(list(got) == [i for i, c in enumerate(b) if c == "1"], lambda: f"ones of {b} is {got!r}")
    elif view == "nones":
        got = a.nones
        need(got == k, lambda: f"nones of {b} is {got!r}, not {k}")
    elif view == "coverage":
        got = a.coverage
        need(got is not None and abs(got - k / n) < 1e-12, lambda: f"coverage of {b} is {got!r}, not {k / n}")
    elif view == "entropy":
        got = a.entropy
        need(got == len(comp), lambda: f"entropy of {b} is {got!r}, not {len(comp)}")
    elif view == "rel_entropy":
        got = a.rel_entropy
        need(got is not None and abs(got - len(comp) / n) < 1e-12, lambda: f"rel_entropy of {b} is {got!r}")
    elif view == "length":
        got = a.length
        need(got == n, lambda: f"length of {b} is {got!r}, not {n}")
    elif view == "len":
        got = len(a)
        need(got == n, lambda: f"len of {b} is {got!r}, not {n}")


def strat(tier):
    return st.fixed_dictionaries({
        "bits": bits(tier), "spec": act_spec(), "cfg": config(),
        "views": st.lists(st.sampled_from(VIEWS[:6] + VIEWS[:6] + VIEWS), min_size=1, max_size=8),
        "cfg2": st.one_of(st.none(), config()),
        "copy": st.sampled_from(["no", "no", "copy", "rebuild"]),
    })


REBUILD = {"raw": lambda a: (a.raw, None), "as_bitarray": lambda a: (a.as_bitarray, None),
           "as_integer": lambda a: (a.as_integer, len(a)), "as_compressed_str": lambda a: (a.as_compressed_str, None)}


def check(case):
    from ruleskit import Activation

    b = case["bits"]
    apply_config(case["cfg"])
    a = make_activation(b, case["spec"])
    for i, v in enumerate(case["views"]):
        if i == 1 and case["cfg2"] is not None:
            apply_config(dict(case["cfg2"], store_raw=case["cfg"]["store_raw"]))  # switches are global, may change
        check_view(a, b, v)
    c = a
    if case["copy"] == "copy":
        c = copy(a)
    elif case["copy"] == "rebuild":
        for v in case["views"]:
            if v in REBUILD:
                data, length = REBUILD[v](a)
                c = Activation(data, length=length, to_file=case["spec"]["to_file"],
                               optimize=case["spec"]["optimize"])
                break
    for v in ["raw", "as_bitarray", "as_integer", "as_compressed_str", "as_compressed_array", "length"]:
        check_view(c, b, v)
        check_view(a, b, v)
    out = [case["spec"]["fmt"], "stored_" + str(a.data_format), "copy_" + case["copy"]]
    if nontrivial_bits(b):
        out.append("nt")
    if len(b) > 255:
        out.append("long")
    return out


EX = [
    {"bits": x, "spec": {"fmt": f, "optimize": o, "to_file": False},
     "cfg": {"dtype": d, "will_compare": w, "store_raw": False, "force_stat": False}, "views": ["raw"], "cfg2": None,
     "copy": "copy"}
    for x in ("0", "1", "01", "0110") for d in ("str", "ndarray") for w in (True, False) for o in (True, False)
    for f in ("raw_ubyte", "bitarray", "integer", "binary_str", "lazy")
]

LAWS = [
    Law("views", strat, check, quick=9000, examples=EX,
        rule="the vector has both zeros and ones (input format, storage switches, access order and copy are drawn)"),
]
