"""Strategies for plain-data cases, and builders turning them into objects of the library."""
import os
import random
from pathlib import Path

import numpy as np
import pandas as pd
from bitarray import bitarray
from hypothesis import strategies as st

from .core import Violation, scratch


def need(cond, msg):
    if not cond:
        raise Violation(msg() if callable(msg) else msg)


# --------------------------------------------------------------------------------------------- bits
def _huge(t):
    n, f, runs, last = t
    s = "".join(("01" if f == "0" else "10")[i % 2] * r for i, r in enumerate(runs))[: n - last]
    other = ("10"[int(s[-1])]) if s else f
    s = s + other * (n - last - len(s))
    return s + "10"[int(s[-1])] * last if s else f * n


def _dense(t):
    """Long and irregular: about n / (2 * t[2]) changes."""
    seed, n, width = t
    rng = random.Random(seed)
    return "".join(rng.choice("01") * width for _ in range(n // width))


def bits(tier="quick", min_size=1, max_small=20, huge_too=True):
    """A 0/1 vector as a string: short explicit ones, run-length encoded long ones, and extreme ones."""
    big = 3000 if tier == "quick" else 20000
    small = st.lists(st.sampled_from("01"), min_size=min_size, max_size=max_small).map("".join)
    rle = st.lists(st.integers(1, 40), min_size=1, max_size=12).flatmap(
        lambda runs: st.sampled_from("01").map(
            lambda f: "".join(("01" if f == "0" else "10")[i % 2] * r for i, r in enumerate(runs))
        )
    )
    large = st.lists(st.integers(1, big // 4), min_size=1, max_size=6).flatmap(
        lambda runs: st.sampled_from("01").map(
            lambda f: "".join(("01" if f == "0" else "10")[i % 2] * r for i, r in enumerate(runs))
        )
    )
    const = st.tuples(st.sampled_from("01"), st.integers(min_size, 300)).map(lambda t: t[0] * t[1])
    one = st.tuples(st.integers(min_size, 300), st.integers(0, 299), st.sampled_from("01")).map(
        lambda t: "".join(t[2] if i != t[1] % t[0] else "10"[int(t[2])] for i in range(t[0]))
    )
    alt = st.tuples(st.integers(min_size, 300), st.sampled_from(["01", "10", "011", "0001"])).map(
        lambda t: (t[1] * t[0])[: t[0]]
    )
    # lengths around which a narrow integer type would overflow
    huge = st.tuples(
        st.sampled_from([127, 128, 255, 256, 257, 32767, 32768, 32769, 65535, 65536, 65537, 70000]),
        st.sampled_from("01"), st.lists(st.integers(1, 40000), min_size=0, max_size=4), st.integers(1, 5),
    ).map(_huge)
    dense = st.tuples(st.integers(0, 10 ** 6), st.sampled_from([1000, 4096, 5000, 20000]), st.sampled_from([1, 2, 9])).map(_dense)
    s = usual = st.one_of(small, small, small, rle, const, one, alt, large)
    if huge_too:
        s = st.integers(0, 39).flatmap(lambda k: huge if k == 39 else dense if k == 38 else usual)
    return s.filter(lambda b: len(b) >= min_size)


def long_bits():
    """A vector longer than what a two-byte integer can count."""
    return st.tuples(
        st.sampled_from([65536, 65537, 65600, 70000, 131072, 131073, 140000]),
        st.sampled_from("01"), st.lists(st.integers(1, 70000), min_size=0, max_size=5), st.integers(1, 5),
    ).map(_huge)


def bits_of_len(n):
    """A 0/1 vector of given length."""
    small = st.lists(st.sampled_from("01"), min_size=n, max_size=n).map("".join)
    def from_runs(t):
        f, runs = t
        s = "".join(("01" if f == "0" else "10")[i % 2] * r for i, r in enumerate(runs))
        s = s[:n]
        return s + s[-1] * (n - len(s))
    rle = st.tuples(st.sampled_from("01"), st.lists(st.integers(1, max(1, n)), min_size=1, max_size=8)).map(from_runs)
    const = st.sampled_from("01").map(lambda c: c * n)
    return st.one_of(small, rle, const) if n <= 24 else st.one_of(rle, rle, const)


def arr(b):
    return np.frombuffer(b.encode("ascii"), dtype=np.ubyte) - np.ubyte(48)


def nontrivial_bits(b):
    return "0" in b and "1" in b


# --------------------------------------------------------------------------------------------- config
def config():
    return st.fixed_dictionaries({
        "dtype": st.sampled_from(["str", "ndarray"]),
        "will_compare": st.booleans(),
        "store_raw": st.sampled_from([False, False, False, True]),
        "force_stat": st.sampled_from([False, False, True]),
    })


def apply_config(c):
    from ruleskit import Activation

    Activation.DTYPE = str if c.get("dtype", "str") == "str" else np.ndarray
    Activation.WILL_COMPARE = bool(c.get("will_compare", False))
    Activation.STORE_RAW = bool(c.get("store_raw", False))
    Activation.FORCE_STAT = bool(c.get("force_stat", False))


# --------------------------------------------------------------------------------------------- histories
def look():
    """When the state is looked at in a history: looking may itself change the state (caches, files read late)."""
    return st.sampled_from(["always", "always", "end", 2, 3])


def looked_at(how, step, nsteps):
    return how == "always" or step == nsteps - 1 or (how != "end" and step % how == how - 1)


# --------------------------------------------------------------------------------------------- activations
FORMATS = [
    "raw_ubyte", "raw_int", "raw_float", "raw_bool", "bitarray", "integer", "compressed_str", "compressed_array",
    "binary_str", "path", "str_path", "lazy",
]


def act_spec(formats=FORMATS):
    return st.fixed_dictionaries({
        "fmt": st.sampled_from(formats),
        "optimize": st.booleans(),
        "to_file": st.booleans(),
    })


def compress_list(b):
    """Reference compression: first value, positions of changes, length."""
    v = [1 if c == "1" else 0 for c in b]
    return [v[0]] + [i for i in range(1, len(v)) if v[i] != v[i - 1]] + [len(v)]


_COUNTER = [0]


def scratch_file(name):
    d = os.path.join(scratch(), "files")
    os.makedirs(d, exist_ok=True)
    return Path(d) / name


def source_file(b, name):
    p = scratch_file(name)
    with open(p, "wb") as f:
        np.save(f, arr(b), allow_pickle=False)
    return p


def make_activation(b, spec, tag="a"):
    """Builds an Activation of vector b through the given input format. b must not be empty."""
    from ruleskit import Activation

    fmt = spec["fmt"]
    if fmt == "compressed_array" and len(b) == 1:
        fmt = "compressed_str"  # [0, 1] would be a raw vector of length 2
    kw = {"optimize": spec["optimize"], "to_file": spec["to_file"]}
    if fmt == "raw_ubyte":
        return Activation(arr(b), **kw)
    if fmt == "raw_int":
        return Activation(arr(b).astype(int), **kw)
    if fmt == "raw_float":
        return Activation(arr(b).astype(float), **kw)
    if fmt == "raw_bool":
        return Activation(arr(b).astype(bool), **kw)
    if fmt == "bitarray":
        return Activation(bitarray(b, endian="little" if len(b) % 3 == 0 else "big"), **kw)
    if fmt == "integer":
        return Activation(int(b, 2), length=len(b), **kw)
    if fmt == "compressed_str":
        return Activation(",".join(str(i) for i in compress_list(b)), **kw)
    if fmt == "compressed_array":
        return Activation(np.array(compress_list(b)), **kw)
    if fmt == "binary_str":
        return Activation(b, **kw)
    p = source_file(b, f"source_{tag}.npy")
    if fmt == "path":
        return Activation(p, **kw)
    if fmt == "str_path":
        return Activation(str(p), **kw)
    if fmt == "lazy":
        return Activation(p, lasy=True, **kw)
    raise AssertionError(fmt)


def same_bits(got, b):
    """got: anything array-like; equal to vector b, as 0/1, with the right length?"""
    got = np.asarray(got)
    return got.shape == (len(b),) and bool(np.array_equal(got.astype(float), arr(b).astype(float)))
