"""Differential monitor of the flat HDF5 reader against direct h5py reads, with an audit of file opens."""
import hashlib
import os
import shutil
import tempfile

import numpy as np

from harness.env import rng_for

RULE = "distinct (kind of file, row range, key selection) combinations judged"


def column(rng, n, kind):
    shape = (n,) + tuple(int(x) for x in rng.integers(1, 5, int(rng.integers(0, 3))))
    if kind == "str":
        return np.array([("s%d" % rng.integers(1e9)).encode() for _ in range(n)], dtype="S12")
    if kind == "vstr":  # variable-length strings
        return np.array([("s%d" % rng.integers(10 ** rng.integers(1, 9))).encode() for _ in range(n)] + [None], dtype=object)[:-1]
    if kind == "bool":
        return rng.random(shape) < 0.5
    if kind.startswith(("i", "u")):
        info = np.iinfo(kind)
        return rng.integers(info.min, info.max, shape, dtype=kind, endpoint=True)
    a = rng.normal(0, 1, shape).astype(kind)
    flat = a.reshape(-1)
    for v in (np.nan, np.inf, -np.inf, -0.0):
        if flat.size and rng.random() < 0.3:
            flat[int(rng.integers(flat.size))] = v
    return a


KINDS = ("f4", "f8", "i4", "i8", "u8", "bool", "str", "vstr", ">f8", "f2")
NAMES = ("logm0", "t_peak", "a", "halo_id", "x_data", "data_x", "data", "Data", "b0", "0", "logtc", "long name", "é")


def make_file(rng, fn):
    """-> {dataset or None: {key: array}}"""
    import h5py

    tree = {}
    with h5py.File(fn, "w") as hdf:
        kind = rng.choice(["flat", "group", "nested", "mixed"])
        groups = {"flat": [None], "group": ["data", "other"], "nested": ["a/b", "a/c", "a/ca", "Output1/nodeData"], "mixed": ["data", "data/data", "g"]}[kind]
        for g in groups:
            n = int(rng.choice([0, 1, 2, 7, 30]))
            cols = {}
            for name in rng.permutation(np.array(NAMES, dtype=object))[: int(rng.integers(1, 6))]:
                if kind == "mixed" and name == "data":
                    continue
                if kind == "nested" and name == "a":
                    continue
                arr = column(rng, n, rng.choice(KINDS))
                opts = {} if arr.dtype != object else dict(dtype=h5py.string_dtype())
                if n and rng.random() < 0.3 and arr.dtype.kind in "fiu":
                    opts = dict(chunks=True, compression="gzip")
                (hdf if g is None else hdf.require_group(g)).create_dataset(name, data=arr, **opts)
                cols[name] = arr
            tree[g] = cols
    return kind, tree


def hdfcol(tree, path):
    g, k = path.rsplit("/", 1)
    return tree[g][k]


def same(a, b):
    if a.shape != b.shape or a.dtype != b.dtype:
        return False
    return a.tolist() == b.tolist() if a.dtype == object else a.tobytes() == b.tobytes()


def body(mon):
    from diffmah.data_loaders import io_utils

    rng = rng_for(mon)
    quick = mon.tier == "quick"
    drn = tempfile.mkdtemp(prefix="verif_c15_")
    try:
        for i in range(60 if quick else 1200):
            fn = os.path.join(drn, f"f{i}.hdf5")
            kind, tree = make_file(rng, fn)
            digest = hashlib.sha256(open(fn, "rb").read()).hexdigest()
            for g, cols in tree.items():
                if not cols:
                    continue
                n = len(next(iter(cols.values())))
                has_subgroup = kind == "mixed" and g == "data"
                for rep in range(8):
                    istart = int(rng.choice([0, 0, 1, n // 2, max(n - 1, 0), n, n + 3]))
                    iend = rng.choice(np.array([None, n, istart, istart + 1, n // 2, n + 5, 0], dtype=object))
                    names = list(cols)
                    sel = rng.choice(["all", "one", "subset", "reversed"])
                    if has_subgroup and sel == "all":
                        sel = "reversed"
                    keys = {"all": None, "one": [names[0]], "subset": [str(x) for x in rng.permutation(np.array(names, dtype=object))[: int(rng.integers(1, len(names) + 1))]], "reversed": names[::-1]}[sel]
                    kw = {}
                    if istart or rng.random() < 0.5:
                        kw["istart"] = istart
                    if iend is not None or rng.random() < 0.5:
                        kw["iend"] = iend
                    if keys is not None or rng.random() < 0.5:
                        kw["keys"] = keys
                    if g is not None:
                        kw["dataset"] = g
                    W = dict(file_kind=kind, rows=n, options=kw, columns={k: [str(v.dtype), list(v.shape)] for k, v in cols.items()})
                    before = None if keys is None else list(keys)
                    with mon.valid_input("load_flat_hdf5", **W):
                        out = io_utils.load_flat_hdf5(fn, **kw)
                    want_names = names if keys is None else before
                    mon.check(sorted(out) == sorted(want_names), "exactly the requested columns, under their own names", got=sorted(out), want=sorted(want_names), **W)
                    mon.check(keys is None or list(keys) == before, "the caller's key list is not modified", **W)
                    for k in want_names:
                        want = cols[k][istart:] if iend is None else cols[k][istart:iend]
                        got = np.asarray(out[k])
                        mon.check(same(got, want), f"stored rows of column {k!r}", got_shape=list(got.shape), want_shape=list(want.shape), got_dtype=str(got.dtype), want_dtype=str(want.dtype), **W)
                        mon.seen("columns compared")
                        mon.seen("rows compared", len(want))
                    mon.case(kind, np.sign(istart), iend is None, sel, n, min(istart, n + 1), str(iend))
            # a missing file is an error and stays missing; a file that someone else reads can be read
            missing = os.path.join(drn, f"missing{i}.hdf5")
            try:
                io_utils.load_flat_hdf5(missing)
                mon.check(False, "a missing file is an error", fn=missing)
            except Exception:
                mon.check(not os.path.exists(missing), "reading a missing file creates nothing", fn=missing)
            # paths of columns inside groups may also be requested directly from the root: all distinct
            paths = [f"{g}/{k}" if g else k for g, c in tree.items() for k in c]
            with mon.valid_input("load_flat_hdf5 with full paths", paths=paths):
                out = io_utils.load_flat_hdf5(fn, keys=paths)
            mon.check(sorted(out) == sorted(paths), "distinct stored columns are never merged", got=sorted(out), want=sorted(paths))
            for g, c in tree.items():
                for k, v in c.items():
                    mon.check(same(np.asarray(out[f"{g}/{k}" if g else k]), v), "column requested by its path", path=f"{g}/{k}")
            # nested groups relative to a group
            if kind == "nested":
                rel = [f"{g}/{k}" for g in ("b", "c", "ca") for k in tree[f"a/{g}"]]
                if rel:
                    out = io_utils.load_flat_hdf5(fn, keys=rel, dataset="a")
                    mon.check(len(out) == len(rel), "distinct nested columns are never merged", got=sorted(out), want=rel)
                    mon.check(sorted(out) == sorted(rel), "nested columns are returned under the names they have in the group", got=sorted(out), want=sorted(rel))
                    for k in rel:
                        if k in out:
                            mon.check(same(np.asarray(out[k]), hdfcol(tree, "a/" + k)), "nested column", key=k)
                    mon.seen("nested selections")
            mon.check(hashlib.sha256(open(fn, "rb").read()).hexdigest() == digest, "the file is not modified", file_kind=kind)
            # the file is closed again: it can be rewritten
            os.remove(fn)
        fds = [os.readlink(f"/proc/self/fd/{x}") for x in os.listdir("/proc/self/fd") if os.path.islink(f"/proc/self/fd/{x}")]
        mon.check(not any(drn in x for x in fds), "every file is closed after loading", fds=[x for x in fds if drn in x][:5])
    finally:
        shutil.rmtree(drn)
    mon.require("columns compared", 300)
