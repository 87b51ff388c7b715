"""Reference monitor: every returned log10 mass against the float64 rolling power law."""
import numpy as np

from harness import gen, ref
from harness.env import double, rng_for

RULE = "distinct (halo-parameter regime, position relative to t_peak, entry point) combinations compared with the float64 law"
ASSUMPTIONS = ["inputs are judged at the single-precision values the library receives", "absolute tolerance 2e-5 dex (3e-5 beyond z=0)"]


def body(mon):
    import diffmah
    from diffmah import diffmah_kernels as dk

    n_rounds = 30 if mon.tier == "quick" else 300
    rng = rng_for(mon)
    for r in range(n_rounds):
        if r > 4 and not mon.more():
            break
        n = [64, 200, 1, 33][r % 4]
        lgt0 = gen.lgt0(rng)
        t0 = 10 ** float(lgt0)
        p = gen.halos(rng, n, ordered=(r % 3 != 2), t0=t0, typical=(r % 6 == 5))
        nt = [40, 12, 100][r % 3]
        t = gen.times(rng, nt, p[4], t0)
        if r % 4 == 1:  # long before the first halos: the law still applies
            t[: nt // 4] = 10.0 ** rng.uniform(-6, -1.5, nt // 4)
            mon.seen("times before 30 Myr", nt // 4)
        mon.context = [dict(round=r)]
        params = dk.DiffmahParams(*p)
        want = ref.log_mah([ref.f32(x)[:, None] for x in p], ref.f32(t)[None, :], float(lgt0))
        mon.check(np.all(np.isfinite(want)), "reference finite (harness)")
        dm, lm = diffmah.mah_halopop(params, t, lgt0)
        lm = np.asarray(lm)
        tol = np.where(t[None, :] > t0, 3e-5, 2e-5)
        tol = np.broadcast_to(tol, want.shape) + np.where(t[None, :] < 0.04, 1e-6 * np.abs(want), 0.0)
        mon.check_close(lm, want, tol, "mah_halopop log mass vs law", params=p, t=t, lgt0=lgt0)
        mon.seen("halo-times judged via mah_halopop", lm.size)
        if r % 6 in (0, 3):  # the same law in double precision, where nothing hides below single-precision rounding
            with double():
                q = dk.DiffmahParams(*[ref.f32(x) for x in p])
                w8 = 1e-9 * (1 + np.abs(want))
                mon.check_close(np.asarray(diffmah.mah_halopop(q, ref.f32(t), float(lgt0))[1]), want, w8, "double-precision mah_halopop vs law", params=p, t=t, lgt0=lgt0)
                t8 = np.resize(ref.f32(t), n)
                w1 = ref.log_mah(q, t8, float(lgt0))
                mon.check_close(np.asarray(diffmah.logmh_at_t_obs(q, t8, float(lgt0))), w1, 1e-9 * (1 + np.abs(w1)), "double-precision logmh_at_t_obs vs law", params=p, t=t8, lgt0=lgt0)
                one = dk.DiffmahParams(*[float(x[0]) for x in p])
                mon.check_close(np.asarray(diffmah.mah_singlehalo(one, ref.f32(t), float(lgt0))[1]), want[0], w8[0], "double-precision mah_singlehalo vs law", params=one, t=t, lgt0=lgt0)
            mon.seen("halo-times judged in double precision", lm.size + n + nt)
        for i in rng.choice(n, min(n, 3), replace=False):
            ph = dk.DiffmahParams(*[x[i] for x in p])
            _, l1 = diffmah.mah_singlehalo(ph, t, lgt0)
            mon.check_close(l1, want[i], tol[i], "mah_singlehalo log mass vs law", params=ph, t=t, lgt0=lgt0)
            # lightcone call: one halo at all times, scalar time
            lo = diffmah.logmh_at_t_obs(ph, t, lgt0)
            mon.check_close(lo, want[i], tol[i], "logmh_at_t_obs vs law", params=ph, t=t, lgt0=lgt0)
            ls = diffmah.logmh_at_t_obs(ph, float(t[0]), lgt0)
            mon.check_close(ls, want[i, 0], tol[i, 0], "scalar logmh_at_t_obs vs law", params=ph, t=t[0], lgt0=lgt0)
            mon.seen("halo-times judged via single-halo entry points", 2 * nt + 1)
        # lightcone call with one time per halo
        tt = gen.times(rng, n, (), t0)
        k = rng.random(n) < 0.3
        tt = np.where(k & (p[4] <= 20), p[4], tt).astype("f4")
        lo = diffmah.logmh_at_t_obs(params, tt, lgt0)
        w = ref.log_mah([ref.f32(x) for x in p], ref.f32(tt), float(lgt0))
        mon.check_close(lo, w, np.where(tt > t0, 3e-5, 2e-5), "per-halo logmh_at_t_obs vs law", params=p, t=tt, lgt0=lgt0)
        mon.seen("halo-times judged via logmh_at_t_obs", n)
        tp = p[4][:, None]
        mon.seen("times exactly at t_peak", int((t[None, :] == tp).sum() + (tt == p[4]).sum()))
        mon.seen("times after t_peak", int((t[None, :] > tp).sum()))
        for nm, arr, (lo_, hi_) in zip(ref.MAH_FIELDS, p, ref.MAH_BOUNDS.values()):
            q = np.clip(((arr - lo_) / (hi_ - lo_) * 6).astype(int), 0, 5)
            for b in np.unique(q):
                mon.case(nm, int(b), r % 4)
        mon.case("t0", round(t0, 1))
    # the populations of the documentation, whose late index leaves the bounds
    for r in range(3 if mon.tier == "quick" else 20):
        n, nt = (50, 100) if r < 3 else (int(rng.integers(2, 80)), int(rng.integers(2, 200)))
        t = np.linspace(0.5, 13.8, nt)
        z = np.zeros(n)
        tutorial = [
            (12 + z, np.log10(np.linspace(1, 5, n)), 2 + z, 1 + z, 14 + z),
            (12 + z, 0.5 + z, np.linspace(1, 3, n), 1 + z, 14 + z),
            (12 + z, 0.5 + z, 3 + z, np.linspace(0.01, 3, n), 14 + z),
        ]
        for k, q in enumerate(tutorial):
            if r:
                q = [x + (rng.uniform(-0.005, 0.005, n) if i == 3 else rng.uniform(-0.3, 0.3, n)) for i, x in enumerate(q)]
            params = diffmah.DEFAULT_MAH_PARAMS._make(q)
            lm = np.asarray(diffmah.mah_halopop(params, t, np.log10(t[-1]))[1])
            want = ref.log_mah([ref.f32(x)[:, None] for x in q], ref.f32(t)[None, :], float(np.float32(np.log10(t[-1]))))
            mon.check_close(lm, want, 2e-5, "populations of the documentation vs law", example=k, params=q, t=t)
            mon.seen("documented populations")
            mon.case("documentation", k, r)
    # the published constants and default halo the law is documented with
    import diffmah.defaults as dd

    mon.check(
        list(diffmah.DiffmahParams._fields) == list(ref.MAH_FIELDS), "field order of DiffmahParams", fields=diffmah.DiffmahParams._fields
    )
    mon.check(float(diffmah.MAH_K) == ref.MAH_K and float(dd.MAH_K) == ref.MAH_K, "published steepness", k=diffmah.MAH_K)
    mon.sample(n_rounds=r + 1, last_params=[x[:3] for x in p], last_t=t[:6], last_log_mah=lm[:1, :6])
    mon.require("times exactly at t_peak", 20)
    mon.require("times after t_peak", 100)
    mon.require("halo-times judged in double precision", 500)
