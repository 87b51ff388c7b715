"""Offline checker of the tabulated population samples and of the target loader.

Synthetic catalogs (fits in HDF5, host-status histories in memory-mapped files) are tabulated by the real script
in scratch directories; every file it leaves is compared with the bins computed from the catalog in float64.
The tabulated moments and the loader's tables are then recomputed from the sample files themselves.
"""
import collections
import importlib.util
import os
import re
import shutil
import sys
import tempfile

import numpy as np

from harness import ref, scripts
from harness.env import REPO, rng_for

RULE = "distinct (stage, number of bins, subvolumes, bin population class) cases judged"
ASSUMPTIONS = ["the output directory is fresh and its name ordinary text", "masses within 1e-4 dex of a bin edge are not generated"]
DRN = os.path.join(REPO, "scripts", "diffmahpop_tabulation")
T0 = 13.7976158
CAP = 34
HALF = 0.15
COLS = ("logm0", "logtc", "early_index", "late_index", "t_peak")


def load():
    if "smdpl_diffmahpop_utils" not in sys.modules:
        fn = os.path.join(DRN, "smdpl_diffmahpop_utils.py")
        spec = importlib.util.spec_from_file_location("smdpl_diffmahpop_utils", fn)
        mod = importlib.util.module_from_spec(spec)
        sys.modules["smdpl_diffmahpop_utils"] = mod
        spec.loader.exec_module(mod)
    return sys.modules["smdpl_diffmahpop_utils"]


def bin_grid(n_m, n_t):
    return [(float(t), float(l)) for t in np.linspace(2.0, T0, n_t) for l in np.linspace(11.0, 15 + 0.075 * (t - 15.0), n_m)]


def catalog(rng, bins, n_good, n_bad):
    """Parameters, loss; every halo away from the edge of every bin"""
    n = 4 * (n_good + n_bad)
    centers = np.array([b[1] for b in bins])
    lg = np.where(rng.random(n) < 0.6, rng.choice(centers, n) + rng.uniform(-0.25, 0.6, n), rng.uniform(10.5, 15.2, n))
    p = dict(logm0=lg, logtc=rng.uniform(-0.5, 0.9, n), early_index=rng.uniform(1.5, 4.5, n), late_index=rng.uniform(0.1, 0.9, n), t_peak=rng.uniform(1.0, T0 + 0.2, n))
    if rng.random() < 0.5:  # one crowded corner
        k = rng.random(n) < 0.5
        p["logm0"] = np.where(k, bins[-1][1] - 0.05 + 0.1 * rng.random(n), p["logm0"])
        p["t_peak"] = np.where(k, rng.uniform(9, 13, n), p["t_peak"])
    p = {k: v.astype("f4").astype("f8") for k, v in p.items()}
    ok = np.ones(n, bool)
    for t in sorted({b[0] for b in bins}):
        m = mass(p, t)
        for tt, l in bins:
            if tt == t:
                ok &= np.abs(np.abs(m - l) - HALF) > 1e-4
    idx = np.flatnonzero(ok)[: n_good + n_bad]
    assert len(idx) == n_good + n_bad
    p = {k: v[idx] for k, v in p.items()}
    bad = np.zeros(len(idx), bool)
    bad[rng.permutation(len(idx))[:n_bad]] = True
    loss = np.where(bad, rng.choice([-1.0, -99.0], len(idx)), rng.choice([0.0, 1e-3, 0.1, 3.0], len(idx)))
    return p, loss, bad


def mass(p, t):
    q = tuple(p[k][:, None] for k in COLS)
    return np.asarray(ref.log_mah(q, np.atleast_1d(float(t)), np.log10(T0)))[:, 0]


def write_subvol(rng, fitdrn, catdrn, s, p, loss, upid, dt):
    import h5py
    from umachine_pyio.memmap_array_utils import write_ndarray_to_memmap

    with h5py.File(os.path.join(fitdrn, f"subvol_{s:03d}_diffmah_fits.h5"), "w") as h:
        for k in COLS:
            h[k] = p[k].astype(dt)
        h["loss"] = loss.astype(dt)
        h["halo_id"] = np.arange(len(loss))
    for k, v in (("halo_id", np.arange(len(loss)) + 10**12 * (s + 1)), ("upid_history", upid)):
        d = os.path.join(catdrn, f"subvol_{s}", k)
        os.makedirs(d)
        write_ndarray_to_memmap(v, os.path.join(d, k + ".memmap"))


def parse(name):
    a = name.split("_")
    return float(a[1]), float(a[3]), name.split(".")[-2]


def rows_problem(rows, cands, must):
    """rows (n, 5) must be a sub-multiset of the candidates cands (m, 5), `must` of them; None if so"""
    if len(rows) != must:
        return f"{len(rows)} rows instead of {must}"
    used = np.zeros(len(cands), bool)
    for r in rows:
        d = np.max(np.abs(cands - r), axis=1)
        d[used] = np.inf
        j = int(np.argmin(d))
        if not d[j] < 6e-5:
            return f"row {r.tolist()} is not one of the bin's halos (or repeated)"
        used[j] = True
    return None


def tabulate(mon, rng, rep, quick):
    smah = load()
    n_m, n_t = [(4, 3), (12, 9), (1, 2), (3, 1), (7, 4)][rep % 5]
    n_sub = [4, 2, 3, 3, 1][rep % 5]
    n_good, n_bad = 150, [0, 7, 30][rep % 3]
    root = tempfile.mkdtemp(prefix="c30_")
    try:
        fitdrn, catdrn = os.path.join(root, "fits"), os.path.join(root, "cats")
        out = os.path.join(root, ["out", "out put", "o;ut [a]", "out{0}"][int(rng.integers(4))])
        for d in (fitdrn, catdrn, out):
            os.makedirs(d)
        nsnap = int(rng.integers(3, 40))
        t_snap = np.sort(np.concatenate([rng.uniform(0.3, T0 - 0.05, nsnap - 1), [T0]]))
        np.savetxt(os.path.join(catdrn, "smdpl_cosmic_time.txt"), t_snap)
        t_snap = np.loadtxt(os.path.join(catdrn, "smdpl_cosmic_time.txt"))
        bins = bin_grid(n_m, n_t)
        first = int(rng.choice([0, 1, 8]))
        lone = rng.random() < 0.3
        expect = collections.defaultdict(list)  # (lgm, t, kind) -> list of (subvol, rows)
        bad_rows, all_rows = [], []
        for s in range(max(first - 1, 0), first + n_sub + 1):
            k = 1 if lone and s == first else n_good
            nb = 0 if k == 1 else n_bad
            p, loss, bad = catalog(rng, bins, k, nb)
            mode = rng.choice(["mixed", "cens", "sats", "flip"], p=[0.5, 0.1, 0.1, 0.3])
            n = len(loss)
            sat = rng.random((n, nsnap)) < 0.4
            if mode in ("cens", "sats"):
                sat[:] = mode == "sats"
            elif mode == "flip":  # changes once in time
                sat = np.arange(nsnap)[None, :] >= rng.integers(0, nsnap + 1, n)[:, None]
            upid = np.where(sat, rng.choice([0, 1, 12345678901, 2**53 + 7], (n, nsnap)), -1).astype("i8")
            write_subvol(rng, fitdrn, catdrn, s, p, loss, upid, str(rng.choice(["f4", "f8"])))
            if not first <= s < first + n_sub:
                continue
            R = np.stack([p[c] for c in COLS], axis=1)
            all_rows.append(R[~bad])
            bad_rows.append(R[bad])
            for t in sorted({b[0] for b in bins}):
                m = mass(p, t)
                dist = np.abs(t_snap - t)
                h = int(np.argmin(dist))
                st = sat[:, h]
                for tt, l in bins:
                    if tt == t:
                        inb = (np.abs(m - l) < HALF) & ~bad
                        for kind, sel in (("cens", ~st), ("sats", st)):
                            if np.any(inb & sel):
                                expect[(l, t, kind)].append(R[inb & sel])
        keep = {"notes.txt": "a", "subvol_3_notes.txt": "b", "subvol_000_diffmah_fits.h5": "c", "lgm_plot.txt": "d"}
        for k, v in keep.items():
            open(os.path.join(out, k), "w").write(v)
        W = dict(n_m=n_m, n_t=n_t, first=first, n_sub=n_sub, out=os.path.basename(out), n_bad=n_bad, lone=bool(lone))
        mon.context = [W]
        args = [out, "-istart", first, "-iend", first + n_sub, "-diffmah_drn", fitdrn, "-sfhcat_drn", catdrn, "-n_m", n_m, "-n_t", n_t]
        if rep % 2 == 0:
            fn = os.path.join(DRN, "measure_smdpl_diffmahpop.py")
            with argv(fn, args):
                exec(compile(open(fn).read(), fn, "exec"), {"__name__": "__main__", "__file__": fn})
        else:
            with argv("x", []):
                smah.smdpl_diffmahpop_subvolume_loop(out, diffmah_drn=fitdrn, sfhcat_drn=catdrn, istart=first, iend=first + n_sub, n_m=n_m, n_t=n_t)
        left = sorted(os.listdir(out))
        dirs = [d for d in left if os.path.isdir(os.path.join(out, d))]
        mon.check(len(dirs) == 1, "one directory of samples", left=left, **W)
        numbers = [int(x) for x in re.findall(r"\d+", dirs[0])]
        mon.check(numbers == [n_m, n_t, first, first + n_sub], "the directory's name says which grid and which subvolumes it holds", got=dirs[0], **W)
        mon.check(set(left) - set(dirs) == set(keep), "temporary files and nothing else are removed", left=left, **W)
        mon.check(all(open(os.path.join(out, k)).read() == v for k, v in keep.items()), "other files keep their contents", **W)
        drn = os.path.join(out, dirs[0])
        found = {}
        for fn in sorted(os.listdir(drn)):
            X = np.load(os.path.join(drn, fn))
            found[fn] = X
        # names carry two digits; the way a tie is rounded is left open
        files = {}
        for l, t, k in expect:
            near = [f for f in found if parse(f)[2] == k and abs(parse(f)[0] - l) < 0.0051 and abs(parse(f)[1] - t) < 0.0051]
            files[l, t, k] = near[0] if len(near) == 1 else f"lgm_{l:.2f}_t_{t:.2f}_mah_params.{k}.npy"
        names = set(files.values())
        mon.check(set(found) == names, "one file for each bin that has halos, and no other", missing=sorted(names - set(found))[:4], extra=sorted(set(found) - names)[:4], **W)
        for (l, t, k), groups in expect.items():
            name = files[l, t, k]
            if name not in found:
                continue
            X = found[name]
            must = sum(min(len(g), CAP) for g in groups)
            mon.check(X.ndim == 2 and X.shape[1] == 6 and np.array_equal(X[:, 4], X[:, 5]), "each row holds a halo's parameters and its t_peak", shape=X.shape, file=name, **W)
            prob = rows_problem(X[:, :5], np.concatenate(groups), must)
            mon.check(prob is None, "every qualifying halo of the bin, up to the cap, is stored once with its own parameters", why=prob, file=name, **W)
            # the cap is per subvolume
            for g in groups:
                near = [np.min(np.max(np.abs(g - r), axis=1)) < 6e-5 for r in X[:, :5]]
                mon.check(sum(near) == min(len(g), CAP), "each subvolume contributes its qualifying halos up to the cap", got=sum(near), has=len(g), file=name, **W)
                mon.seen("subvolume bins", 1)
                mon.seen("capped bins", int(len(g) > CAP))
            mon.seen("stored rows", len(X))
            mon.case("tabulate", n_m, n_t, k, "capped" if any(len(g) > CAP for g in groups) else "single" if len(X) == 1 else "some")
        if found:
            bad = np.concatenate(bad_rows) if bad_rows else np.zeros((0, 5))
            good = np.concatenate(all_rows)
            stored = np.concatenate([x[:, :5] for x in found.values()])
            for b in bad:
                if np.min(np.max(np.abs(good - b), axis=1)) > 2e-4:
                    mon.check(not np.any(np.max(np.abs(stored - b), axis=1) < 6e-5), "poorly fit halos appear nowhere", halo=b, **W)
                    mon.seen("bad halos")
        moments(mon, rng, smah, drn, rep, W)
    finally:
        shutil.rmtree(root)


class argv:
    def __init__(self, fn, args):
        self.new = [fn, *[str(a) for a in args]]

    def __enter__(self):
        import contextlib
        import io
        import warnings

        self.old, sys.argv = sys.argv, self.new
        self.st = contextlib.ExitStack()
        self.st.enter_context(contextlib.redirect_stdout(io.StringIO()))
        self.st.enter_context(warnings.catch_warnings())
        warnings.simplefilter("ignore")

    def __exit__(self, *a):
        sys.argv = self.old
        self.st.close()


def history(rows, t, t0):
    q = tuple(rows[:, i : i + 1] for i in range(5))
    return np.asarray(ref.log_mah(q, np.asarray(t, "f8"), np.log10(t0)))


def expected_moments(X, l, t, n_t, rescale):
    tt = np.linspace(0.5, t, n_t)
    lm = history(X, tt, T0)
    if rescale:
        lm = lm - (lm[:, -1:] - l)
    tp = X[:, 4]
    return tt, lm.mean(0), lm.std(0), np.mean(tp[:, None] < tt[None, :], axis=0), np.mean(np.abs(tp[:, None] - tt[None, :]) < 1e-9, axis=0)


def judge_moments(mon, got, drn, kind, nh_min, n_t, rescale, W):
    files = {f: np.load(os.path.join(drn, f)) for f in os.listdir(drn) if f.endswith(kind + ".npy")}
    big = {f: X for f, X in files.items() if len(X) > nh_min}
    have = collections.Counter(f"lgm_{a:.2f}_t_{b:.2f}_mah_params.{kind}.npy" for a, b in zip(got["lgm_obs"], got["t_obs"]))
    mon.check(have == collections.Counter(list(big)), f"{kind}: one target for each bin with more than the minimum number of halos", have=sorted(have)[:5], want=sorted(big)[:5], nh_min=nh_min, **W)
    for i in range(len(got["lgm_obs"])):
        l, t = float(got["lgm_obs"][i]), float(got["t_obs"][i])
        f = f"lgm_{l:.2f}_t_{t:.2f}_mah_params.{kind}.npy"
        if f not in big:
            continue
        tt, mu, sd, fp, amb = expected_moments(big[f], l, t, n_t, rescale)
        w = dict(file=f, rescale=rescale, n_halos=len(big[f]), **W)
        mon.check_close(got["t_table"][i], tt, 1e-5, f"{kind}: time table", **w)
        mon.check_close(got["mean_log_mah"][i], mu, 2e-4, f"{kind}: mean log mass of the stored samples", **w)
        mon.check_close(got["std_log_mah"][i], sd, 2e-4 + 1e-3 * sd, f"{kind}: scatter of the stored samples", **w)
        mon.check_close(got["frac_peaked"][i], fp, 1e-6 + amb, f"{kind}: peaked fraction of the stored samples", **w)
        mon.seen("targets judged")
    mon.case("moments", kind, rescale, nh_min)


def moments(mon, rng, smah, drn, rep, W):
    import jax

    for rescale, nh_min, n_t in ((True, int(rng.choice([5, 20, 60])), 25), (False, 60, 25)):
        with argv("x", []):
            cens, sats = smah.tabulate_target_means_vars(drn, nh_min=nh_min, n_t_target=n_t, rescale=rescale)
        judge_moments(mon, cens, drn, "cens", nh_min, n_t, rescale, W)
        judge_moments(mon, sats, drn, "sats", nh_min, n_t, rescale, W)
    jax.clear_caches()


def synthetic_bins(rng, drn, sizes):
    """Sample files of the tabulation, with chosen numbers of halos"""
    bins = bin_grid(12, 9)
    pick = rng.permutation(len(bins))
    out = {}
    for kind in ("cens", "sats"):
        for j, n in zip(pick, rng.permutation(sizes)):
            t, l = bins[j]
            lo = rng.uniform(1, T0, n)
            p = dict(logm0=rng.uniform(l - 0.05, l + 0.4, n), logtc=rng.uniform(-0.5, 0.9, n), early_index=rng.uniform(1.5, 4.5, n), late_index=rng.uniform(0.1, 0.9, n), t_peak=lo)
            X = np.round(np.stack([p[c] for c in COLS] + [lo], axis=1), 4)
            f = f"lgm_{l:.2f}_t_{t:.2f}_mah_params.{kind}"
            np.save(os.path.join(drn, f), X)
            out[f + ".npy"] = X
    return out


def loader(mon, rng, rep):
    import h5py

    from diffmah.diffmahpop_kernels import load_diffmahpop_fitdata as lf

    smah = load()
    root = tempfile.mkdtemp(prefix="c30_")
    try:
        drn = os.path.join(root, "NM 12" if rep % 2 else "NM_12_NT_9")
        os.makedirs(drn)
        nmin = 110
        # files around the two thresholds; only a few sizes so that the number of compilations is bounded
        files = synthetic_bins(rng, drn, [99, 100, 101, 101, 109, 110, 110, 111, 150, 150, 150, 150, 150, 150, 1])
        W = dict(rep=rep)
        mon.context = [W]
        with argv("x", []):
            smah.write_mean_variance_to_disk(drn, os.path.join(drn, "mean_var_cens.h5"), os.path.join(drn, "mean_var_sats.h5"))
        data = {}
        for kind in ("cens", "sats"):
            with h5py.File(os.path.join(drn, f"mean_var_{kind}.h5"), "r") as h:
                data[kind] = {k: h[k][...] for k in h.keys()}
            judge_moments(mon, data[kind], drn, kind, 100, 25, True, W)
        for trial in range(2):
            cut = dict(t_obs_min_cen=float(rng.choice([0.0, 2.5, 5.0])), t_obs_min_sat=float(rng.choice([0.0, 2.5, 7.0])),
                       lgm_obs_max_cen=float(rng.choice([13.0, 14.5, 16])), lgm_obs_max_sat=float(rng.choice([12.5, 13.5, 16])), n_sample_min=nmin)
            if trial == 0:
                cut = dict(n_sample_min=nmin)
            full = dict(t_obs_min_cen=2.5, t_obs_min_sat=2.5, lgm_obs_max_cen=14.5, lgm_obs_max_sat=13.5, n_sample_min=200)
            full.update(cut)
            np.random.seed(int(rng.integers(2**31)))
            with argv("x", []):
                cen, sat = lf.load_diffmahpop_targets(drn=drn, **cut)
            for kind, tab, tmin, lmax in (("cens", cen, full["t_obs_min_cen"], full["lgm_obs_max_cen"]), ("sats", sat, full["t_obs_min_sat"], full["lgm_obs_max_sat"])):
                judge_loaded(mon, kind, tab, data[kind], files, tmin, lmax, nmin, dict(cut=cut, **W))
    finally:
        shutil.rmtree(root)


def judge_loaded(mon, kind, tab, data, files, tmin, lmax, nmin, W):
    name = lambda l, t: f"lgm_{l:.2f}_t_{t:.2f}_mah_params.{kind}.npy"
    want = {name(l, t): i for i, (l, t) in enumerate(zip(data["lgm_obs"], data["t_obs"])) if t > tmin and l < lmax and len(files[name(l, t)]) >= nmin}
    have = [name(float(l), float(t)) for l, t in zip(tab["lgm_obs"], tab["t_obs"])]
    mon.check(collections.Counter(have) == collections.Counter(list(want)), f"loader, {kind}: exactly the bins that pass the cuts", have=have, want=sorted(want), **W)
    for i, f in enumerate(have):
        if f not in want:
            continue
        row, j, X = tab[i], want[f], files[f]
        w = dict(file=f, kind=kind, **W)
        for k in ("mean_log_mah", "std_log_mah", "frac_peaked", "t_table"):
            mon.check(np.array_equal(np.asarray(row[k]), data[k][j]), f"loader: tabulated {k} is attached to its bin", **w)
        m = np.asarray(row["mean_log_mah"], "f8")
        l = float(data["lgm_obs"][j])
        mon.check_close(np.asarray(row["mean_log_mah_rescaled"], "f8"), m - m[-1] + l, 1e-5, "loader: rescaled mean ends at the bin's mass", **w)
        mon.check(int(row["n_samples"]) == len(X), "loader: number of samples is that of the bin", got=int(row["n_samples"]), want=len(X), **w)
        S = np.stack([np.asarray(row[c + "_samples"], "f8") for c in COLS], axis=1)
        mon.check(S.shape == (nmin, 5), "loader: requested number of samples", got=S.shape, **w)
        prob = rows_problem(S, X[:, :5], nmin)
        mon.check(prob is None, "loader: samples are distinct halos of the bin with their own parameters", why=prob, **w)
        h = history(S, data["t_table"][j], 13.79)
        got, resc = np.asarray(row["log_mah_samples"], "f8"), np.asarray(row["log_mah_rescaled_samples"], "f8")
        # 13.79 and 13.7976 Gyr are both in use for today
        mon.check_close(got, h, 3e-3, "loader: histories are those of the samples", **w)
        mon.check_close(resc, got - got[:, -1:] + l, 1e-5, "loader: rescaled histories end at the bin's mass", **w)
        mon.seen("loaded bins")
        mon.case("loader", kind, len(X))


def selection(mon, rng, rep):
    """The bin selection by itself, over the widths a caller may ask for"""
    from diffmah.diffmah_kernels import DEFAULT_MAH_PARAMS

    f = getattr(load(), "get_target_mah_params", None)
    if f is None:
        mon.skip("no selection function")
        return
    n = int(rng.integers(1, 400))
    nt = int(rng.choice([1, 2, 5]))
    table = rng.uniform(10, 15, (n, nt))
    l = float(rng.uniform(10.5, 14.5))
    width = float(rng.choice([1e-3, 0.02, 0.05, 0.1, 0.15, 0.3, 0.5, 1.0, 2.0, 10.0]))
    if rep % 4 == 0:
        table[:, -1] = l + rng.choice([-1, 1], n) * width * rng.choice([0.5, 0.999, 1.001, 2.0], n)
    q = DEFAULT_MAH_PARAMS._make([rng.uniform(0, 10, n) for _ in DEFAULT_MAH_PARAMS])
    tp, upid = rng.uniform(1, 14, n), rng.choice([-1, 0, 7], n)
    args = (table, l, q, tp, upid)
    with argv("x", []):
        got = f(*args) if width == 0.15 else f(*args, lgm_obs_bin_width=width)
    sel = np.abs(table[:, -1] - l) < width
    w = dict(width=width, lgm_obs=l, halos=n, expected=int(sel.sum()))
    for x, y, name in zip([*got[0], got[1], got[2]], [*q, tp, upid], [*COLS, "t_peak", "upid"]):
        mon.check(np.array_equal(np.asarray(x), y[sel]), "selection: exactly the halos closer to the bin mass than the width, with their own values", column=name, got=len(x), **w)
    mon.seen("selections judged")
    mon.seen("selected halos", int(sel.sum()))


def body(mon):
    scripts.install_stubs()
    quick = mon.tier == "quick"
    for rep in range(60 if quick else 2000):
        selection(mon, rng_for(mon, 3, rep), rep)
    for rep in range(4 if quick else 60):
        if rep > 2 and not mon.more():
            break
        tabulate(mon, rng_for(mon, 1, rep), rep, quick)
    for rep in range(2 if quick else 40):
        if rep > 1 and not mon.more():
            break
        loader(mon, rng_for(mon, 2, rep), rep)
    mon.context = []
    mon.require("stored rows", 300)
    mon.require("capped bins", 1)
    mon.require("targets judged", 5)
    mon.require("loaded bins", 5)
