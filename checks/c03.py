"""Differential monitor: accretion rate vs analytic float64 derivative, and conservation of mass growth."""
import numpy as np

from harness import gen, ref
from harness.env import double, rng_for

RULE = "distinct (parameter regime, before/after t_peak) combinations whose rate was compared with the derivative of the mass"
ASSUMPTIONS = ["relative tolerance 2e-4 of the summed magnitude of the terms (float32 rounding of 10**log_mass)", "times bitwise equal to t_peak excluded"]


def body(mon):
    import diffmah
    from diffmah import diffmah_kernels as dk

    rng = rng_for(mon)
    n_rounds = 40 if mon.tier == "quick" else 300
    for r in range(n_rounds):
        if r > 4 and not mon.more():
            break
        lgt0 = gen.lgt0(rng)
        t0 = 10 ** float(lgt0)
        n = [60, 150, 1][r % 3]
        p = gen.halos(rng, n, ordered=(r % 3 != 1), t0=t0, typical=(r % 6 == 5))
        t = gen.times(rng, [50, 20, 120][r % 3], p[4], t0)
        mon.context = [dict(round=r)]
        dm, lm = diffmah.mah_halopop(dk.DiffmahParams(*p), t, lgt0)
        dm, lm = np.asarray(dm).astype("f8"), np.asarray(lm).astype("f8")
        P = [ref.f32(x)[:, None] for x in p]
        T = ref.f32(t)[None, :]
        want, scale = ref.dmhdt(P, T, float(lgt0))
        at = T == P[4]
        tol = 2e-4 * scale + 1e-30
        mon.check_close(np.where(at, 0, dm), np.where(at, 0, want), tol, "accretion rate vs d(10**log_mah)/dt/1e9", params=p, t=t, lgt0=lgt0)
        before, after = T < P[4], T > P[4]
        mon.check(dm[after] == 0.0, "rate exactly zero after t_peak", n=after.sum(), params=p, t=t, lgt0=lgt0)
        ordered = (P[2] >= P[3]) & (T <= t0)
        sel = before & ordered
        mon.check(dm[sel] >= -(2e-4 * scale + 1e-30)[sel], "rate non-negative before z=0", n=sel.sum(), params=p, t=t, lgt0=lgt0)
        mon.seen("rates judged before t_peak", before.sum())
        mon.seen("rates judged after t_peak", after.sum())
        if r % 6 in (0, 4):  # in double precision nothing hides below single-precision rounding
            with double():
                d8 = np.asarray(diffmah.mah_halopop(dk.DiffmahParams(*[x[:, 0] for x in P]), T[0], float(lgt0))[0])
            mon.check_close(np.where(at, 0, d8), np.where(at, 0, want), 1e-8 * scale + 1e-300, "double-precision rate vs d(10**log_mah)/dt/1e9", params=p, t=t, lgt0=lgt0)
            mon.seen("rates judged in double precision", d8.size)
        # single halo entry point
        i = int(rng.integers(n))
        ph = dk.DiffmahParams(*[x[i] for x in p])
        d1, _ = diffmah.mah_singlehalo(ph, t, lgt0)
        d1 = np.asarray(d1).astype("f8")
        mon.check_close(np.where(at[i], 0, d1), np.where(at[i], 0, want[i]), tol[i], "mah_singlehalo rate", params=ph, t=t, lgt0=lgt0)
        # integrated rate reproduces the growth of the returned mass (both from the API)
        hi = min(float(p[4][i]) * (1 - 1e-5), 20.0)
        lo = max(hi * rng.uniform(0.05, 0.9), 0.011)
        if hi > lo * 1.01:
            tg = np.geomspace(lo, hi, 1201).astype("f4")
            tg = np.minimum(tg, np.nextafter(p[4][i], np.float32(0)))
            tg = np.unique(tg)
            dg, lg = diffmah.mah_singlehalo(ph, tg, lgt0)
            dg, lg = np.asarray(dg).astype("f8"), np.asarray(lg).astype("f8")
            T8 = tg.astype("f8")
            lt = np.log(T8)
            f = dg * 1e9 * T8
            integ = np.sum(0.5 * (f[1:] + f[:-1]) * np.diff(lt))
            growth = 10 ** lg[-1] - 10 ** lg[0]
            size = np.sum(0.5 * (np.abs(f[1:]) + np.abs(f[:-1])) * np.diff(lt)) + 10 ** lg.max()
            mon.check_close(integ, growth, 2e-3 * size, "integral of the rate vs growth of the mass", params=ph, t_lo=lo, t_hi=hi, lgt0=lgt0)
            mon.seen("integrals compared")
        for nm, arr, (b0, b1) in zip(ref.MAH_FIELDS, p, ref.MAH_BOUNDS.values()):
            for b in np.unique(np.clip(((arr - b0) / (b1 - b0) * 6).astype(int), 0, 5)):
                mon.case(nm, int(b), r % 3)
    mon.sample(rounds=r + 1, params=ph, t=t[:5], dmhdt=d1[:5])
    mon.require("rates judged after t_peak", 300)
    mon.require("integrals compared", 4)
    mon.require("rates judged in double precision", 500)
