"""Round-trip monitor: fit results -> text line -> per-rank file -> HDF5 table, compared field by field."""
import os
import shutil
import tempfile

import numpy as np

from harness import fits, gen, ref
from harness.env import rng_for

RULE = "distinct (kind of result, table size, with/without identifiers) combinations that went through the round trip"
COLS = ("logm0", "logtc", "early_index", "late_index", "t_peak", "loss", "n_points_per_fit", "fit_algo")
# six significant digits: half a unit of the sixth digit
REL = 5.0e-6 * (1 + 1e-9)


def synth(rng, dk, fh, kind):
    """A fit result as the fitter would return it, and its expected row."""
    if kind == "nofit":
        vals = [ref.NOFIT] * 6
        tgt = np.sort(rng.uniform(8, 12, int(rng.integers(0, 3))))
        code = -1
    else:
        p = [float(x[0]) for x in gen.halos(rng, 1)]
        if kind == "tiny":
            p[1] = float(rng.choice([-1, 1])) * 10.0 ** rng.uniform(-30, -5)
            loss = float(rng.choice([0.0, 1e-30, 10.0 ** rng.uniform(-12, -6), 1.17549435e-38]))
        elif kind == "rounding":
            # values just under a power of ten and at ties of the last printed digit
            p[0] = float(rng.choice([9.9999949, 9.9999951, 12.345675, 16.9999999, 10.0]))
            p[1] = float(rng.choice([-0.99999951, -0.0999999996, 0.099999949, -1.0]))
            p[4] = float(rng.choice([13.7999999, 0.0500000007, 9.99999523, 19.9999]))
            loss = float(rng.choice([9.99999e-5, 9.999996e-5, 1e-3, 123456.789]))
        else:
            loss = 10.0 ** rng.uniform(-7, 1)
        vals = [*p, loss]
        n = int(rng.choice([1, 4, 10, 100, 500])) if rng.random() < 0.97 else int(rng.choice([300, 40_000, 70_000]))
        tgt = np.maximum.accumulate(np.sort(rng.uniform(9, 13, n)))
        if rng.random() < 0.5:
            tgt[n // 2 :] = tgt[-1]
        code = int(rng.choice([0, 1]))
    npts = int(np.sum(tgt < tgt[-1])) if len(tgt) else 0
    vals = [np.float32(v) for v in vals] if rng.random() < 0.5 else vals
    pb = dk.DEFAULT_MAH_PARAMS._make(vals[:5])
    ld = fh.DiffmahFitLossData(np.arange(len(tgt)) + 1.0, tgt, -99.0, 1.1)
    res = fh.DiffmahFitResult(pb, vals[5], code < 0, code >= 0, code, ld)
    return res, [float(v) for v in vals] + [npts, code]


def judge_row(mon, got, want, what, **W):
    for k, g, w in zip(COLS[:6], got[:6], want[:6]):
        mon.check(abs(float(g) - w) <= REL * abs(w), f"{what}: {k} to six digits", got=float(g), want=w, **W)
    mon.check(float(got[6]) == want[6] and float(got[7]) == want[7], f"{what}: point count and optimizer code exact", got=[float(got[6]), float(got[7])], want=want[6:], **W)
    mon.seen("rows judged")


def body(mon):
    import h5py
    from diffmah import diffmah_kernels as dk
    from diffmah.fitting_helpers import diffmah_fitter_helpers as fh

    rng = rng_for(mon)
    quick = mon.tier == "quick"
    mon.check(fh.HEADER.startswith("#") and tuple(fh.HEADER[1:].split()) == COLS and fh.HEADER.endswith("\n"), "header names the columns in the order they are written", header=fh.HEADER)
    mon.check(fh.HEADER_HALO_ID.startswith("#") and tuple(fh.HEADER_HALO_ID[1:].split()) == ("halo_id",) + COLS and fh.HEADER_HALO_ID.endswith("\n"), "header with identifier", header=fh.HEADER_HALO_ID)

    # 1. single lines
    kinds = ("typical", "nofit", "tiny", "rounding")
    for i in range(300 if quick else 6000):
        kind = kinds[i % len(kinds)]
        res, want = synth(rng, dk, fh, kind)
        W = dict(kind=kind, want=want)
        line = fh.get_outline(res)
        mon.check(isinstance(line, str) and line.endswith("\n") and line.count("\n") == 1, "one line per result", line=line, **W)
        mon.check(len(line.split()) == 8, "eight columns", line=line, **W)
        back = fh._parse_outline(line)
        judge_row(mon, [getattr(back, c) for c in COLS], want, "parsed line", line=line)
        mon.check(type(back.n_points_per_fit) is int and type(back.fit_algo) is int, "counts parse as integers", **W)
        hid = int(rng.choice([0, 1, -1, 2**53 + 1, 2**63 - 1, int(rng.integers(0, 2**62))]))
        hid = np.int64(hid) if rng.random() < 0.5 else hid
        line2 = fh.get_outline(res, halo_id=hid)
        tok = line2.split()
        mon.check(len(tok) == 9 and int(tok[0]) == int(hid) and tok[1:] == line.split() and line2.endswith("\n"), "identifier is prepended unchanged", line=line2, halo_id=int(hid))
        mon.case("line", kind)

    # 2. real fits
    for i in range(8 if quick else 80):
        t = gen.time_grid(rng, 25)
        m = gen.history(rng, gen.HISTORY_KINDS[i % len(gen.HISTORY_KINDS)], t)
        res = fits.run(t, m, nstep=20, force_skip_fit=bool(i % 5 == 4))
        lg = np.asarray(res.loss_data.log_mah_target)
        npts = int(np.sum(lg < lg[-1])) if len(lg) else 0
        want = [*fits.params(res), float(res.loss_best), npts, int(res.code_used)]
        judge_row(mon, [getattr(fh._parse_outline(fh.get_outline(res)), c) for c in COLS], want, "line of a real fit", mah=m, t=t)
        mon.seen("real fits written")

    # 3. tables
    drn = tempfile.mkdtemp(prefix="verif_c14_")
    try:
        sizes = [1, 2, 3, 17, 200, 1500] if quick else [1, 2, 3, 5, 17, 64, 200, 999, 1500, 4000]
        for rep in range(1 if quick else 6):
            for n in sizes:
                for with_id in (False, True):
                    rows, lines, ids = [], [], []
                    for i in range(n):
                        res, want = synth(rng, dk, fh, rng.choice(kinds))
                        hid = int(rng.integers(0, 2**63 - 1)) if i % 3 else 2**63 - 1 - i
                        if i % 7 == 5:  # placeholders and signed identifiers
                            hid = -1 if i % 2 else -hid
                        rows.append(want)
                        ids.append(hid)
                        lines.append(fh.get_outline(res, halo_id=hid) if with_id else fh.get_outline(res))
                    fn = os.path.join(drn, "rank.dat")
                    with open(fn, "w") as f:
                        f.write(fh.HEADER_HALO_ID if with_id else fh.HEADER)
                        f.writelines(lines)
                    dat = np.genfromtxt(fn, dtype="str").reshape((-1, 9 if with_id else 8))
                    mon.check(len(dat) == n, "one text row per halo", n_rows=len(dat), n=n)
                    out = os.path.join(drn, "table.hdf5")
                    fh.write_collated_data(out, dat)
                    with h5py.File(out, "r") as hdf:
                        got = {k: hdf[k][...] for k in hdf.keys()}
                    want_keys = set(COLS) | ({"halo_id"} if with_id else set())
                    mon.check(set(got) == want_keys, "table columns", got=sorted(got), want=sorted(want_keys))
                    W = dict(n=n, with_id=with_id)
                    arr = np.array(rows, "f8")
                    for j, c in enumerate(COLS):
                        mon.check(got[c].shape == (n,), f"table column {c} has one entry per row", shape=list(got[c].shape), **W)
                        tol = REL * np.abs(arr[:, j]) if j < 6 else 0.0
                        mon.check_close(got[c], arr[:, j], tol, f"table column {c}", **W)
                        if j >= 6:
                            mon.check(got[c].dtype.kind == "i", f"table column {c} is integer", dtype=str(got[c].dtype), **W)
                    if with_id:
                        mon.check(got["halo_id"].dtype.kind in "iu" and [int(x) for x in got["halo_id"]] == ids, "identifiers survive exactly", n=n, got=[str(int(x)) for x in got["halo_id"][:5]], want=[str(x) for x in ids[:5]])
                    mon.seen("table rows judged", n)
                    mon.case("table", n, with_id)
    finally:
        shutil.rmtree(drn)
    mon.sample(last_line=line2, table_sizes=sizes)
    mon.require("rows judged", 300)
    mon.require("table rows judged", 1000)
