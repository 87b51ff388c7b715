"""Differential monitor of the summary statistics and of the outlier mask against loops in float64.

The reference rescales each halo on its own, and takes moments and order statistics by explicit loops; relations
between runs (halos reordered, mass units of single halos changed, halos duplicated) are judged as well.
"""
import warnings

import numpy as np

from harness import ref
from harness.env import rng_for

RULE = "distinct (function, number of halos, kind of histories, relation) cases judged"
ASSUMPTIONS = ["positive masses and accretion rates, more than one halo; scatter not exactly zero"]
NAMES = ("mean mass", "mean log mass", "variance of log mass", "mean accretion rate", "variance of the accretion rate")


def histories(rng, n, nt, kind):
    t = np.sort(rng.uniform(0.3, 13.8, nt))
    t += np.arange(nt) * 1e-3
    if kind == "model":
        p = tuple(np.asarray(x)[:, None] for x in (rng.uniform(11, 15, n), rng.uniform(-0.3, 0.8, n), rng.uniform(1.5, 4, n), rng.uniform(0.2, 0.9, n), np.full(n, 50.0)))
        lg = np.asarray(ref.log_mah(p, t, np.log10(13.8)))
        mah, dm = 10**lg, ref.dmhdt(p, t, np.log10(13.8))[0]
        dm = np.maximum(dm, 1e-3)
    else:
        lg = np.cumsum(rng.exponential(1.0 / nt, (n, nt)), axis=1) * rng.uniform(0.5, 4, (n, 1)) + rng.uniform(8, 12, (n, 1))
        lg -= np.maximum(lg[:, -1:] - rng.uniform(11, 15.5, (n, 1)), 0)
        mah, dm = 10**lg, 10 ** (lg - 9 + rng.normal(0, 0.5, (n, nt)))
    return t, mah, dm


def loglin(x, xp, yp):
    """Piecewise linear interpolation by an explicit search"""
    out = []
    for v in x:
        j = int(np.clip(np.searchsorted(xp, v, side="right") - 1, 0, len(xp) - 2))
        f = (v - xp[j]) / (xp[j + 1] - xp[j])
        out.append((1 - f) * yp[j] + f * yp[j + 1])
    return np.array(out)


def moments(mah, dm, lgt, lgt_target, logmp):
    n, nt = mah.shape
    mah, dm = mah.astype("f8"), dm.astype("f8")
    tab = np.zeros((5, nt))
    for j in range(nt):
        m = np.array([10.0**logmp * (mah[i, j] / mah[i, -1]) for i in range(n)])
        d = np.array([10.0**logmp * (dm[i, j] / mah[i, -1]) for i in range(n)])
        lg = np.log10(m)
        mu, mul, mud = m.sum() / n, lg.sum() / n, d.sum() / n
        tab[:, j] = mu, mul, np.sqrt(((lg - mul) ** 2).sum() / n), mud, np.sqrt(((d - mud) ** 2).sum() / n)
    return [
        10 ** loglin(lgt_target, lgt, np.log10(tab[0])),
        10 ** loglin(lgt_target, lgt, np.log10(tab[1])),
        loglin(lgt_target, lgt, tab[2]) ** 2,
        10 ** loglin(lgt_target, lgt, np.log10(tab[3])),
        10 ** (2 * loglin(lgt_target, lgt, np.log10(tab[4]))),
    ]


def summary(mon, rng, rep, f):
    n = int(rng.choice([2, 3, 10, 57, 200]))
    nt = int(rng.choice([2, 5, 30]))
    kind = ["model", "random"][rep % 2]
    t, mah, dm = histories(rng, n, nt, kind)
    dt = ["f8", "f8", "f4"][rep % 3]
    if dt == "f4":
        mah, dm = mah.astype("f4"), dm.astype("f4")
    lgt = np.log10(t)
    where = ["table", "between", "ends"][int(rng.integers(3))]
    if where == "table":
        tgt = np.sort(rng.choice(lgt, int(rng.integers(1, nt + 1)), replace=False))
    else:
        tgt = np.sort(rng.uniform(lgt[0], lgt[-1], int(rng.integers(1, 40))))
        if where == "ends":
            tgt = np.concatenate([[lgt[0]], tgt, [lgt[-1]]])
    logmp = float(rng.uniform(10.5, 15.5))
    W = dict(n_halos=n, n_times=nt, kind=kind, dtype=dt, logmp=logmp, targets=where)
    mon.context = [W]
    before = [x.copy() for x in (mah, dm, lgt, tgt)]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        got = f(mah, dm, lgt, tgt, logmp)
        mon.check(len(got) == 5 and all(np.shape(g) == tgt.shape for g in got), "five statistics at the target times", shapes=[np.shape(g) for g in got], **W)
        mon.check(all(np.array_equal(a, b) for a, b in zip(before, (mah, dm, lgt, tgt))), "inputs are not modified", **W)
        want = moments(mah, dm, lgt, tgt, logmp)
        tol = 1e-8 if dt == "f8" else 2e-4
        floor = (0, 0, 1e-9 if dt == "f8" else 1e-5, 0, 0)
        for a, b, nm, fl in zip(got, want, NAMES, floor):
            t_ = tol if not nm.startswith("variance") or dt == "f8" else 5e-3
            mon.check_close(np.asarray(a, "f8"), b, t_ * np.abs(b) + fl, nm, **W)
        # relations between runs
        pm = rng.permutation(n)
        units = 10 ** rng.uniform(-3, 3, n)[:, None]
        for rel, args in (
            ("halos reordered", (mah[pm], dm[pm])),
            ("mass units of each halo changed", ((mah * units).astype(dt), (dm * units).astype(dt))),
            ("every halo twice", (np.repeat(mah, 2, axis=0), np.repeat(dm, 2, axis=0))),
        ):
            again = f(*args, lgt, tgt, logmp)
            for a, b, nm, fl in zip(again, got, NAMES, floor):
                t_ = tol if not nm.startswith("variance") or dt == "f8" else 5e-3
                mon.check_close(np.asarray(a, "f8"), np.asarray(b, "f8"), t_ * np.abs(b) + fl, f"{nm}: unchanged with {rel}", **W)
            mon.case("summary", n, kind, dt, rel)
    mon.seen("statistics", 5 * tgt.size)


def reference_mask(lg, logmp, it_min, lim, z_cut):
    """(mask, undecided)"""
    n, nt = lg.shape
    lg = lg.astype("f8")
    keep, near = np.ones(n, bool), np.zeros(n, bool)
    for j in range(it_min, nt - 1):
        x = np.array([lg[i, j] - lg[i, -1] + logmp for i in range(n)])
        k = int(lim * n)
        mid = np.sort(x)[k : n - k]
        mu = mid.sum() / len(mid)
        sd = np.sqrt(((mid - mu) ** 2).sum() / len(mid))
        d = np.abs(x - mu)
        keep &= d < z_cut * sd
        near |= np.abs(d - z_cut * sd) < 1e-7 * (1 + z_cut * sd)
    return keep, near


def outliers(mon, rng, rep, f):
    n = int(rng.choice([2, 3, 10, 57, 200, 400]))
    nt = int(rng.choice([2, 5, 30]))
    t, mah, _ = histories(rng, n, nt, ["model", "random"][rep % 2])
    lg = np.log10(mah)
    k = rng.random(n) < rng.choice([0.0, 0.05, 0.3])  # outliers, at one time or at all
    if rep % 4 == 0:
        k = np.arange(n) == rng.integers(n)  # a lone outlier can be many standard deviations away
    if nt > 2:
        lg[k, int(rng.integers(0, nt - 1))] += rng.normal(0, 3, k.sum())
    logmp = float(rng.uniform(10.5, 15.5))
    it_min = int(rng.integers(0, nt))
    kw = {}
    if rng.random() < 0.7:
        kw["lim"] = float(rng.choice([0.0, 0.01, 0.1, 0.25, 0.4]))
    if rng.random() < 0.7:
        kw["z_cut"] = float(rng.choice([0.1, 0.5, 1, 2, 3, 5, 8, 15, 40]))
    lim, z_cut = kw.get("lim", 0.01), kw.get("z_cut", 3)
    W = dict(n_halos=n, n_times=nt, it_min=it_min, logmp=logmp, **kw)
    mon.context = [W]
    before = lg.copy()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        got = np.asarray(f(lg, logmp, it_min, **kw))
        want, near = reference_mask(lg, logmp, it_min, lim, z_cut)
        mon.check(got.shape == (n,) and got.dtype == bool, "a mask with one entry per halo", got=got.shape, **W)
        mon.check(np.array_equal(before, lg), "inputs are not modified", **W)
        mon.check(near | (got == want), "the mask keeps exactly the halos within the cut at every checked time", halo=np.flatnonzero(~near & (got != want))[:5], **W)
        pm = rng.permutation(n)
        off = rng.uniform(-3, 3, (n, 1))
        for rel, x, back in (("halos reordered", lg[pm], pm), ("mass units of each halo changed", lg + off, np.arange(n))):
            again = np.asarray(f(x, logmp, it_min, **kw))
            same = again == got[back]
            mon.check(near[back] | same, f"outlier mask: unchanged with {rel}", **W)
            mon.case("mask", n, lim, z_cut, rel)
    mon.seen("halos classified", n)
    mon.seen("outliers", int((~got).sum()))
    mon.seen("halos kept", int(got.sum()))


def body(mon):
    from diffmah.fitting_helpers import measure_mahs as mm

    quick = mon.tier == "quick"
    for rep in range(500 if quick else 8000):
        if rep > 20 and not mon.more():
            break
        summary(mon, rng_for(mon, 1, rep), rep, mm.measure_target_data)
        outliers(mon, rng_for(mon, 2, rep), rep, mm.get_clean_sample_mask)
    mon.context = []
    mon.require("statistics", 1000)
    mon.require("outliers", 50)
    mon.require("halos kept", 500)
