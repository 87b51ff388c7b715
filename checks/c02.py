"""Online shape monitor: monotone to z=0, frozen from t_peak on, normalised at z=0."""
import numpy as np

from harness import gen, ref
from harness.env import rng_for

RULE = "distinct (parameter regime, t_peak before/after z=0, kind of time grid) combinations whose history was checked point by point"
ASSUMPTIONS = ["decreases below 1e-5 dex between neighbouring times are single-precision rounding"]


def body(mon):
    import diffmah
    from diffmah import diffmah_kernels as dk

    rng = rng_for(mon)
    n_rounds = 40 if mon.tier == "quick" else 400
    for r in range(n_rounds):
        if r > 4 and not mon.more():
            break
        lgt0 = gen.lgt0(rng)
        t0 = 10 ** float(lgt0)
        n = 150
        p = gen.halos(rng, n, ordered=True, t0=t0, typical=(r % 5 == 4))
        kind = ["dense", "random", "unsorted"][r % 3]
        nt = [300, 80, 80][r % 3]
        t = gen.times(rng, nt, p[4], t0)
        if kind == "dense":
            t[: nt // 2] = np.linspace(0.05, 20, nt // 2).astype("f4")
        if kind != "unsorted":
            t = np.sort(t)
        mon.context = [dict(round=r, kind=kind)]
        _, lm = diffmah.mah_halopop(dk.DiffmahParams(*p), t, lgt0)
        lm = np.asarray(lm)
        mon.check(np.isfinite(lm), "finite log mass", n=lm.size, params=p, t=t, lgt0=lgt0)
        o = np.argsort(t, kind="stable")
        ts, ls = t[o], lm[:, o].astype("f8")
        past = ts <= np.float32(t0)
        d = np.diff(ls[:, past], axis=1)
        i = np.unravel_index(np.argmin(d), d.shape) if d.size else (0, 0)
        mon.check(d >= -1e-5, "log mass non-decreasing up to z=0", n=d.size, halo=[x[i[0]] for x in p], t=ts[past][i[1] : i[1] + 2], drop=float(d.min()) if d.size else 0.0, lgt0=lgt0)
        mon.seen("consecutive pairs up to z=0", d.size)
        for h in range(n):
            f = ts >= p[4][h]
            if f.sum() > 1:
                v = lm[h, o][f]
                mon.check(np.abs(v.astype("f8") - v[0]) <= 4e-6, "log mass constant from t_peak on", n=f.sum(), halo=[x[h] for x in p], t=ts[f], log_mah=v, lgt0=lgt0)
                mon.seen("frozen points", f.sum())
                mon.case("frozen", r % 3, int(p[4][h]))
        # value at z=0
        l0 = np.asarray(diffmah.logmh_at_t_obs(dk.DiffmahParams(*p), np.full(n, 10 ** float(lgt0), "f4"), lgt0)).astype("f8")
        late_peak = p[4] >= t0 * (1 + 1e-6)
        mon.check_close(l0[late_peak], ref.f32(p[0])[late_peak], 1e-5, "z=0 mass equals logm0 when t_peak is not before z=0", params=[x[late_peak] for x in p], lgt0=lgt0)
        mon.seen("halos still growing at z=0", int(late_peak.sum()))
        early_peak = p[4] < t0 * (1 - 1e-6)
        lp = np.asarray(diffmah.logmh_at_t_obs(dk.DiffmahParams(*p), p[4], lgt0)).astype("f8")
        mon.check_close(l0[early_peak], lp[early_peak], 4e-6, "z=0 mass equals mass at t_peak", params=[x[early_peak] for x in p], lgt0=lgt0)
        mon.check(l0[early_peak] <= ref.f32(p[0])[early_peak] + 1e-5, "z=0 mass does not exceed logm0", n=early_peak.sum(), params=[x[early_peak] for x in p], lgt0=lgt0)
        mon.seen("halos with t_peak before z=0", int(early_peak.sum()))
        mon.case(kind, round(t0, 1))
    mon.sample(rounds=r + 1, example=[x[0] for x in p], t=t[:5], log_mah=lm[0, :5])
    mon.require("frozen points", 1000)
    mon.require("halos still growing at z=0", 20)
    mon.require("halos with t_peak before z=0", 20)
