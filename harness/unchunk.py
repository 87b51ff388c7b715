"""Chunk files, runner and judge for the unchunking script."""
import hashlib
import os
import shutil

import numpy as np

from . import fileops, scripts

COLS = scripts.FLOAT_COLS + scripts.INT_COLS
NCHUNKS = 20


def digest(fn):
    with fileops.quiet(), open(fn, "rb") as f:
        return hashlib.sha256(f.read()).hexdigest()


def build(rng, indir, subvols, max_rows=6, columns=None):
    """-> {subvol: {col: expected concatenation}}, {path: digest}"""
    import h5py

    os.makedirs(indir, exist_ok=True)
    want, files = {}, {}
    uid = 0
    for sub in subvols:
        cols = list(columns or COLS)
        if columns is None and rng.random() < 0.5:
            cols = cols + ["halo_id", "vec", "label"]
        acc = {c: [] for c in cols}
        wide = rng.random() < 0.3
        mixed = rng.random() < 0.4  # column widths differ from chunk to chunk
        for c in range(NCHUNKS):
            n = int(rng.choice([0, 1, 2, max_rows, int(rng.integers(0, max_rows + 1))]))
            fn = os.path.join(indir, f"subvol_{sub}_chunk_{c:02d}.hdf5")
            ids = uid + np.arange(n)
            uid += n
            with fileops.quiet(), h5py.File(fn, "w") as hdf:
                for k in cols:
                    if k in scripts.INT_COLS:
                        v = (ids % 97).astype("i8")
                    elif k == "halo_id":
                        v = (2**53 + 1 + ids).astype("i8")
                    elif k == "vec":
                        v = (ids[:, None] + np.arange(3)[None, :]).astype("f4")
                    elif k == "label":
                        v = np.array([b"h%d" % i for i in ids], dtype="S%d" % (12 + (c if mixed else 0)))
                        if mixed:
                            v = np.array([x + b"#" * c for x in v.tolist()], dtype=v.dtype)
                    else:
                        v = np.asarray(ids + rng.random(n), "f4" if wide != (mixed and c % 3 == 2) else "f8")
                    hdf[k] = v
                    acc[k].append(v)
            files[fn] = digest(fn)
        want[sub] = {k: np.concatenate(v) for k, v in acc.items()}
    return want, files


def output_name(outdir, sub):
    return os.path.join(outdir, f"subvol_{sub}_diffmah_fits.hdf5")


def output_problem(fn, want, scratch):
    """None if the file on disk holds all rows (judged on a copy: what a crash would leave)."""
    with fileops.quiet():
        if not os.path.exists(fn):
            return "missing"
        cp = os.path.join(scratch, "copy.hdf5")
        shutil.copyfile(fn, cp)
        try:
            got = scripts.read_table(cp)
        except OSError as e:
            return f"unreadable: {e}"
        finally:
            os.remove(cp)
    if set(got) != set(want):
        return f"columns {sorted(got)} instead of {sorted(want)}"
    for k, v in want.items():
        if got[k].shape != v.shape:
            return f"column {k}: shape {got[k].shape} instead of {v.shape}"
        if got[k].dtype != v.dtype:
            return f"column {k}: dtype {got[k].dtype} instead of {v.dtype}"
        if got[k].tobytes() != v.tobytes():
            i = int(np.argmax([a.tobytes() != b.tobytes() for a, b in zip(got[k], v)]))
            return f"column {k}: row {i} is {got[k][i]!r} instead of {v[i]!r}"
    return None


def run(istart, iend, indir, outdir, on_op=None):
    """Execute the script; raises what it raises (SystemExit included)."""
    import diffmah.data_loaders.io_utils  # noqa: F401

    def cb(op, path, when):
        if on_op is not None:
            on_op(op, path, when)

    with scripts.argv("unchunk", [istart, iend, "-indir", indir, "-outdir", outdir]), fileops.Watcher([indir, outdir], cb) as w:
        scripts.execute("unchunk")
    return w.n_ops
