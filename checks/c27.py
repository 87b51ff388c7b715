"""Monitor of predicted mean and scatter: float64 mixture moments of the very sample, and direct Monte Carlo.

The sample the predictor draws for a key is drawn again through the generator; the two-branch mixture moments
are recomputed in float64. Independently, predictions for several keys are compared with the moments of large
populations made by the public generators.
"""
import numpy as np

from checks.c25 import stat_params
from harness import gen, ref
from harness.env import priv, rng_for

RULE = "distinct (centrals/satellites, comparison, parameter vector) bins whose predicted moments were judged"
ASSUMPTIONS = ["statistical thresholds of >= 6.5 sigma"]


def apis():
    from diffmah.diffmahpop_kernels import mc_bimod_cens as mc, mc_bimod_sats as ms

    return (("cens", mc, mc.mc_cenpop), ("sats", ms, ms.mc_satpop))


def mixture(fe, le, ll):
    fe = np.asarray(fe, "f8")
    we, wl = fe / len(fe), (1 - fe) / len(fe)
    mu = we @ le + wl @ ll
    var = we @ (le - mu) ** 2 + wl @ (ll - mu) ** 2
    return mu, np.sqrt(var)


def body(mon):
    import jax.random as jran

    from diffmah.defaults import DiffmahParams

    quick = mon.tier == "quick"
    rng = rng_for(mon)
    nt = 18
    nrep = 20 if quick else 500
    for rep in range(nrep):
        if rep > 4 and not mon.more():
            break
        params, mode = gen.pop_params(rng) if rep % 2 else stat_params(rng)
        p = ref.P(params)
        t0 = float(rng.choice([13.8, 13.47, 13.79, 9.0]))
        lgt0 = np.float32(np.log10(t0))
        lgm, t_obs = np.float32(rng.uniform(10.5, 15.5)), np.float32(rng.uniform(0.1, 1) * t0)
        tarr = np.sort(rng.uniform(0.05, 1.0, nt) * (float(t_obs) if rep % 3 else t0)).astype("f4")
        if rep % 4 == 3:
            tarr = tarr[rng.permutation(nt)]
        key = jran.PRNGKey(int(rng.integers(2**31)))
        fe_want = float(ref.frac_early(p, float(lgm), float(t_obs)))
        w = dict(lgm=lgm, t_obs=t_obs, lgt0=lgt0, t=tarr, mode=mode)
        mon.context = [dict(rep=rep, params=params._asdict())]
        for kind, mod, pop in apis():
            pred = mod.predict_mah_moments_singlebin(params, tarr, lgm, t_obs, key, lgt0)
            mu, sd = np.asarray(pred[0], "f8"), np.asarray(pred[1], "f8")
            mon.check(mu.shape == (nt,) and sd.shape == (nt,), f"{kind}: shapes of the moments", mu=mu.shape, sd=sd.shape)
            mon.check(np.isfinite(mu) & np.isfinite(sd) & (sd >= 0), f"{kind}: moments finite, scatter non-negative", n=2 * nt, mu=mu, sd=sd, **w)
            again = mod.predict_mah_moments_singlebin(params, tarr, lgm, t_obs, key, lgt0)
            mon.check(np.array_equal(np.asarray(again[0]), np.asarray(pred[0])) and np.array_equal(np.asarray(again[1]), np.asarray(pred[1])), f"{kind}: same key, same prediction")
            draw = priv(mod, "_mc_diffmah_halo_sample")
            if draw is None:
                mon.skip("_mc_diffmah_halo_sample renamed: only the direct Monte Carlo comparison is made")
            else:
                pe, de, le, pl, dl, ll, fe = [x for x in draw(params, tarr, lgm, t_obs, key, lgt0)]
                le, ll, fe = np.asarray(le, "f8"), np.asarray(ll, "f8"), np.asarray(fe, "f8")
                mon.check(le.shape == ll.shape and le.shape[1] == nt and len(fe) == len(le), f"{kind}: sample shapes", got=[le.shape, ll.shape, fe.shape])
                mon.check_close(fe, np.full(len(fe), fe_want), 1e-5, f"{kind}: early fraction of the sample", **w)
                for br, q, lm in (("early", pe, le), ("late", pl, ll)):
                    P = [np.asarray(getattr(DiffmahParams(*q), k), "f8")[:, None] for k in ref.MAH_FIELDS]
                    mon.check_close(lm, ref.log_mah(P, ref.f32(tarr)[None, :], float(lgt0)), 4e-5, f"{kind} {br}: histories of the sample are those of its halos", **w)
                m, s = mixture(np.full(len(fe), fe_want), le, ll)
                mon.check_close(mu, m, 4e-5, f"{kind}: mean is the mixture mean of the sample", **w)
                mon.check_close(sd, s, 4e-5 + 2e-4 * s, f"{kind}: scatter is the mixture scatter of the sample", **w)
                mon.seen("moments compared with the sample", 2 * nt)
                mon.case(kind, "sample", rep)
            if rep % 2 == 0 and (rep < 10 or not quick):
                direct(mon, rng, kind, mod, pop, params, tarr, lgm, t_obs, lgt0, fe_want, w, rep)
    mon.context = []
    mon.require("moments compared with direct Monte Carlo", 100)


def direct(mon, rng, kind, mod, pop, params, tarr, lgm, t_obs, lgt0, fe, w, rep):
    """Large population from the public generator against predictions averaged over keys"""
    import jax.random as jran

    n, nk = 4000, 8
    sample = pop(params, tarr, np.full(n, lgm, "f4"), np.full(n, t_obs, "f4"), jran.PRNGKey(int(rng.integers(2**31))), lgt0)
    lm = np.asarray(sample.log_mah, "f8")
    m, s = lm.mean(0), lm.std(0)
    preds = [mod.predict_mah_moments_singlebin(params, tarr, lgm, t_obs, jran.PRNGKey(int(rng.integers(2**31))), lgt0) for _ in range(nk)]
    mu = np.array([np.asarray(x[0], "f8") for x in preds])
    va = np.array([np.asarray(x[1], "f8") ** 2 for x in preds])
    # each prediction rests on 200 halos per branch; its error is at most that of 200 draws of the rarer branch
    # (weighted), i.e. variance sum_b f_b^2 s_b^2 / 200 <= max(f_b) * s^2 / 200
    nh = 200.0
    z = (lm - m) / np.maximum(s, 1e-12)
    kurt = np.maximum(np.mean(z**4, axis=0), 1.0)
    se_m = s * np.sqrt(1 / n + 1 / (nh * nk))
    mon.check_close(mu.mean(0), m, 6.5 * se_m + 1e-3, f"{kind}: predicted mean agrees with a direct Monte Carlo population", sd=s, **w)
    # the branches contribute with weights f, 1-f: the variance of a variance is at most (kurt) s^4 / n_eff
    se_v = s**2 * np.sqrt(kurt * (1 / n + 1 / (nh * nk)))
    mon.check_close(va.mean(0), s**2, 8 * se_v + s**2 / nh + 1e-5, f"{kind}: predicted scatter agrees with a direct Monte Carlo population", sd=s, kurt=kurt, **w)
    mon.seen("moments compared with direct Monte Carlo", 2 * len(tarr))
    mon.case(kind, "direct", rep)
