"""Round-trip monitor of named tuples through HDF5, bitwise."""
import os
import shutil
import string
import tempfile
from collections import namedtuple

import numpy as np

from harness import gen
from harness.env import rng_for

RULE = "distinct (number of fields, value kinds, order of names) combinations that went through the round trip"
DTYPES = ("f4", "f8", "i4", "i8", "u1", "u8", "bool", "f2", ">f8")


def field_names(rng, n):
    out = []
    while len(out) < n:
        k = rng.choice(["word", "num", "caps", "under", "long", "fields"])
        s = "".join(rng.choice(list(string.ascii_letters), int(rng.integers(1, 8))))
        s = {"word": s, "num": f"x{rng.integers(0, 200)}", "caps": s.upper(), "under": f"a_{s}_{rng.integers(20)}", "long": s * 8, "fields": "fields_" + s}[k]
        if s.isidentifier() and s not in out and not __import__("keyword").iskeyword(s) and not s.startswith("_"):
            out.append(s)
    return out


def value(rng, jnp):
    kind = rng.choice(["pyfloat", "pyint", "npscalar", "array", "jax", "special", "empty", "zero_d"])
    if kind == "pyfloat":
        return float(rng.normal() * 10.0 ** rng.uniform(-30, 30)), kind
    if kind == "pyint":
        return int(rng.integers(-(2**62), 2**62)), kind
    if kind == "special":
        return float(rng.choice([np.nan, np.inf, -np.inf, -0.0, 5e-324, 1.7976931348623157e308])), kind
    dt = np.dtype(str(rng.choice(DTYPES)))
    shape = {"npscalar": (), "array": tuple(int(x) for x in rng.integers(1, 6, int(rng.integers(1, 4)))), "jax": (int(rng.integers(1, 9)),), "empty": (0,), "zero_d": ()}[kind]
    if dt.kind == "b":
        a = rng.random(shape) < 0.5
    elif dt.kind in "iu":
        info = np.iinfo(dt)
        a = rng.integers(info.min, info.max, shape, dtype=dt, endpoint=True)
    else:
        a = np.asarray(rng.normal(size=shape), dtype=dt)
        if a.size and a.ndim and rng.random() < 0.3:
            a.reshape(-1)[0] = np.nan
    a = np.asarray(a, dt)
    if kind == "array":  # any layout in memory, same values
        layout = rng.choice(["C", "F", "strided", "reversed", "transposed", "broadcast", "readonly"])
        if layout == "F":
            a = np.asfortranarray(a)
        elif layout == "strided":
            a = np.repeat(a, 2, axis=-1)[..., ::2]
        elif layout == "reversed":
            a = a[::-1]
        elif layout == "transposed":
            a = a.T
        elif layout == "broadcast":
            a = np.broadcast_to(a, (3, *a.shape))
        elif layout == "readonly":
            a.flags.writeable = False
        return a, f"array {layout}"
    if kind == "jax":
        return jnp.asarray(np.asarray(a, "f4")), kind
    if kind == "npscalar":
        return a[()], kind
    return a, kind


def native(a):
    """scalars come back in native byte order: that is not part of the value"""
    a = np.asarray(a)
    return a.astype(a.dtype.newbyteorder("="))


def judge(mon, back, tup, what, **W):
    mon.check(tuple(back._fields) == tuple(tup._fields), what + ": same fields in the same order", got=list(back._fields)[:20], want=list(tup._fields)[:20], **W)
    for name, g, w in zip(tup._fields, back, tup):
        g, w = native(g), native(w)
        mon.check(g.shape == w.shape, what + ": shape", field=name, got=list(g.shape), want=list(w.shape), **W)
        mon.check(g.dtype == w.dtype and g.tobytes() == w.tobytes(), what + ": bitwise equal value", field=name, got=g, want=w, got_dtype=str(g.dtype), want_dtype=str(w.dtype), **W)
        mon.check(getattr(back, name) is not None and native(getattr(back, name)).tobytes() == w.tobytes(), what + ": value under its own name", field=name, **W)
        mon.seen("values compared")


def body(mon):
    import h5py
    from jax import numpy as jnp

    from diffmah.data_loaders import io_utils

    rng = rng_for(mon)
    quick = mon.tier == "quick"
    drn = tempfile.mkdtemp(prefix="verif_c16_")
    try:
        sizes = [1, 2, 3, 5, 10, 12, 26, 80, 300]
        reused = os.path.join(drn, "reused.hdf5")
        for i in range(45 if quick else 900):
            n = sizes[i % len(sizes)]
            names = field_names(rng, n)
            order = rng.choice(["random", "sorted", "reversed", "numeric"])
            if order == "sorted":
                names = sorted(names)
            elif order == "reversed":
                names = sorted(names)[::-1]
            elif order == "numeric":
                names = [f"p{j}" for j in range(n)]
            vals = [value(rng, jnp) for _ in names]
            tup = namedtuple("T", names)(*[v for v, _ in vals])
            # alternately a fresh file and one that is overwritten with other fields each time
            fn = reused if i % 2 else os.path.join(drn, f"f{i}.hdf5")
            W = dict(n_fields=n, order=str(order), overwrite=bool(i % 2))
            with mon.valid_input("write/load", **W):
                io_utils.write_namedtuple_to_hdf5(tup, fn)
                back = io_utils.load_namedtuple_from_hdf5(fn)
            judge(mon, back, tup, "round trip", **W)
            with h5py.File(fn, "r") as hdf:
                stored = sorted(hdf.keys())
            mon.check(stored == sorted(names), "only the new fields are in the file", got=stored[:10], want=sorted(names)[:10], **W)
            with mon.valid_input("second generation", **W):
                io_utils.write_namedtuple_to_hdf5(back, fn + "2")
                again = io_utils.load_namedtuple_from_hdf5(fn + "2")
            judge(mon, again, tup, "second round trip", **W)
            # loading twice gives the same thing: reading does not change the file
            judge(mon, io_utils.load_namedtuple_from_hdf5(fn), tup, "second load", **W)
            mon.case(n, str(order), i % 2, tuple(sorted({k for _, k in vals})))
        for i in range(4 if quick else 30):
            params, mode = gen.pop_params(rng)
            fn = os.path.join(drn, "pop.hdf5")
            io_utils.write_namedtuple_to_hdf5(params, fn)
            judge(mon, io_utils.load_namedtuple_from_hdf5(fn), params, "population parameters", mode=str(mode))
            mon.case("population parameters", str(mode))
    finally:
        shutil.rmtree(drn)
    mon.require("values compared", 500)
