"""Monitor of the t_peak densities, their cumulative distributions and the draws made from them.

Densities and CDFs are judged against SciPy's truncated normal and a float64 sigmoid, by their own sums over fine
grids, and draws by the probability integral transform: each halo of a population with its own mass, time and
parameters must have a CDF value that is uniform over the population (randomised where there are atoms),
independent from halo to halo, and stay strictly inside the support.
"""
import numpy as np
from scipy import stats as sst

from checks.c25 import independent, no_periodicity, rare_fraction
from harness import gen, ref
from harness.env import double, priv, rng_for

RULE = "distinct (distribution, parameter vector, what was judged) combinations"
ASSUMPTIONS = ["statistical thresholds of >= 6.5 sigma", "SciPy's truncnorm is the reference"]
ND = 100000
NX = 301


def mods():
    from diffmah.diffmahpop_kernels.t_peak_kernels import tp_pdf_cens as tpc, tp_pdf_cens_flex as tpf, tp_pdf_sats as tps, utp_pdf_kernels as tpk

    return tpk, tpc, tpf, tps


def arr(x):
    return np.asarray(x, "f8")


def judge_pdf(mon, x, pdf, cdf, P, C, width, what, /, **w):
    """x spans the support; width: scale of the density in units of x"""
    pdf, cdf = arr(pdf), arr(cdf)
    mon.check(np.isfinite(pdf) & np.isfinite(cdf), f"{what}: finite", **w)
    mon.check(pdf >= 0, f"{what}: density non-negative", **w)
    mon.check_close(pdf * width, P * width, 3e-5 + 1e-4 * P * width, f"{what}: density", **w)
    mon.check_close(cdf, C, 2e-5, f"{what}: cumulative distribution", **w)
    mon.check(np.diff(cdf) >= -2e-6, f"{what}: cumulative distribution never falls", **w)
    mon.check_close(cdf[0], 0.0, 2e-5, f"{what}: starts at zero", **w)
    mon.check_close(cdf[-1], 1.0, 2e-5, f"{what}: ends at one", **w)
    # own consistency: the density's trapezoid sums are the CDF's increments (the curvature of P bounds the error)
    dx = np.diff(arr(x))
    inc = 0.5 * (pdf[1:] + pdf[:-1]) * dx
    exact = 0.5 * (P[1:] + P[:-1]) * dx - np.diff(C)
    mon.check_close(inc - exact, np.diff(cdf), 2e-5, f"{what}: CDF is the integral of the density", **w)
    mon.check_close(np.sum(inc - exact), 1.0, 3e-4, f"{what}: normalized", **w)
    mon.seen("density values", x.size)


def grid(loc, scale, lo=0.1, hi=1.0):
    q = np.clip(loc + scale * np.linspace(-6, 6, 150), lo, hi)
    x = np.sort(np.concatenate([np.linspace(lo, hi, NX - 150), q])).astype("f4")
    x[0], x[-1] = lo, hi
    return x


def randparams(rng, P, B):
    return gen.in_bounds_params(rng, P, B, str(rng.choice(["uniform", "uniform", "edges"])))


def densities(mon, rng, nrep):
    tpk, tpc, tpf, tps = mods()
    pdfk, cdfk = tpk._tp_pdf_kern, priv(tpk, "_tp_cdf_kern")
    hpdf, hcdf = priv(tpc, "_t_peak_cen_pdf_singlehalo_kern"), priv(tpc, "_t_peak_cen_cdf_singlehalo_kern")
    fp = priv(tpf, "_frac_peaked_vs_lgm")
    for rep in range(nrep):
        if rep > 20 and not mon.more():
            break
        # --- truncated normal
        if cdfk is not None:
            loc, scale = np.float32(rng.uniform(0.1001, 0.9999)), np.float32(10 ** rng.uniform(-2, 0.2))
            if rep % 10 == 0:
                loc, scale = np.float32(rng.choice([0.1001, 0.9999])), np.float32(rng.choice([1e-3, 1.0]))
            l, s = float(loc), float(scale)
            x = grid(l, s)
            x8 = np.clip(arr(x), 0.1, 1.0)
            params = tpk.UTP_Params(loc, scale)
            if rep < 12:
                with double():
                    q = tpk.UTP_Params(l, s)
                    a8, b8 = arr(pdfk(x8, q)), arr(cdfk(x8, q))
                # the normalisation carries the cancellation of the truncated tails
                mon.check_close(a8 * s, ref.tn_pdf(x8, l, s) * s, 1e-7, "truncated normal: density in double precision", loc=l, scale=s)
                mon.check_close(b8, ref.tn_cdf(x8, l, s), 1e-7, "truncated normal: CDF in double precision", loc=l, scale=s)
            judge_pdf(mon, x, pdfk(x, params), cdfk(x, params), ref.tn_pdf(x8, l, s), ref.tn_cdf(x8, l, s), s, "truncated normal", loc=l, scale=s)
            y = np.array([-1.0, 0.0, 0.0999, 1.0001, 1.5, 3.0], "f4")
            mon.check(arr(pdfk(y, params)) == 0, "truncated normal: no density outside the support", loc=l, scale=s)
            mon.check_close(arr(cdfk(y, params)), [0, 0, 0, 1, 1, 1], 1e-6, "truncated normal: CDF outside the support", loc=l, scale=s)
            mon.case("truncated normal", rep)
        # --- centrals, truncated normal in t_peak / t_0
        params = randparams(rng, tpc.TPCens_Params, tpc.TPCENS_PBOUNDS)
        p = ref.P(params)
        t0 = float(np.float32(rng.uniform(10, 15)))
        lgm, t_obs = np.float32(rng.uniform(10, 16)), np.float32(rng.uniform(0.07, 1) * t0)
        s = float(ref.tpc_scale(p, float(lgm), float(t_obs), t0))
        w = dict(params=params._asdict(), lgm=float(lgm), t_obs=float(t_obs), t_0=t0)
        if hpdf is not None and hcdf is not None:
            # the ends are a little inside, so that no point rounds to the outside of the support
            x = grid(0.95, s, 0.1 + 1e-6, 1.0 - 1e-6)
            t = (arr(x) * t0).astype("f4")
            u = arr(t) / t0
            got = [np.array(f(params, lgm, t_obs, t, np.float32(t0))) for f in (hpdf, hcdf)]
            judge_pdf(mon, t, *got, ref.tn_pdf(u, 0.95, s) / t0, ref.tn_cdf(u, 0.95, s), s * t0, "central t_peak", **w)
            mon.case("central truncated normal", rep)
        # --- centrals, sigmoid CDF
        params = randparams(rng, tpf.TPCens_Params, tpf.TPCENS_PBOUNDS)
        p = ref.P(params)
        if fp is not None:
            x = np.linspace(0, 1, NX).astype("f4")
            got, want = arr(fp(params, x, lgm, t_obs)), ref.cen_cdf(p, arr(x), float(lgm), float(t_obs))
            w = dict(params=params._asdict(), lgm=float(lgm), t_obs=float(t_obs))
            mon.check_close(got, want, 2e-5, "central peaked fraction", **w)
            if rep < 12:
                with double():
                    g8 = arr(fp(type(params)(*[float(v) for v in params]), arr(x), float(lgm), float(t_obs)))
                mon.check_close(g8, want, 1e-10, "central peaked fraction in double precision", **w)
            mon.check((got >= 0) & (got <= 1), "central peaked fraction is a probability", **w)
            mon.check(np.diff(got) > 0, "central peaked fraction rises with time", **w)
            lg = rng.uniform(10, 16, NX).astype("f4")
            to = rng.uniform(1, 14, NX).astype("f4")
            uu = rng.uniform(0, 1, NX).astype("f4")
            mon.check_close(arr(fp(params, uu, lg, to)), ref.cen_cdf(p, arr(uu), arr(lg), arr(to)), 3e-5, "central peaked fraction of an array of halos", params=params._asdict())
            mon.seen("density values", 2 * NX)
            mon.case("central sigmoid", rep)
        # --- satellites: location and scale
        params = randparams(rng, tps.TP_Sats_Params, tps.TP_SATS_BOUNDS)
        p = ref.P(params)
        lg = rng.uniform(10, 16, NX).astype("f4")
        to = rng.uniform(1, 14, NX).astype("f4")
        w = dict(params=params._asdict())
        loc, sc = arr(tps._get_utp_loc(params, lg, to)), arr(tps._get_utp_scale(params, lg, to))
        mon.check_close(loc, ref.sat_loc(p, arr(lg), arr(to)), 1e-5, "satellite location", **w)
        mon.check_close(sc, ref.sat_scale(p, arr(lg), arr(to)), 1e-5, "satellite scale", **w)
        if rep < 12:
            with double():
                q = type(params)(*[float(v) for v in params])
                l8, s8 = arr(tps._get_utp_loc(q, arr(lg), arr(to))), arr(tps._get_utp_scale(q, arr(lg), arr(to)))
            mon.check_close(l8, ref.sat_loc(p, arr(lg), arr(to)), 1e-10, "satellite location in double precision", **w)
            mon.check_close(s8, ref.sat_scale(p, arr(lg), arr(to)), 1e-10, "satellite scale in double precision", **w)
        mon.check((loc > 0.1) & (loc < 1), "satellite location inside the support", **w)
        mon.check(sc > 0, "satellite scale positive", **w)
        mon.seen("density values", 2 * NX)
        mon.case("satellite", rep)


def judge_draws(mon, rng, x, Fl, Fr, lo, hi, eps, what, /, **w):
    """x: draws; Fl/Fr: CDF a little to the left/right of each draw; uniform when randomised between the two

    eps: error allowed on the CDF (interpolation tables)
    """
    n = len(x)
    mon.check(np.isfinite(x), f"{what}: finite draws", **w)
    mon.check((x >= lo) & (x <= hi), f"{what}: draws inside the support", lo=np.min(lo), hi=np.max(hi), **w)
    v = np.sort(Fl + rng.uniform(size=n) * (Fr - Fl))
    i = np.arange(1, n + 1) / n
    ks = max(np.max(i - v), np.max(v - i + 1 / n))
    mon.check(ks < 3.2 / np.sqrt(n) + eps, f"{what}: draws follow the distribution", ks=ks, **w)
    v = Fl + rng.uniform(size=n) * (Fr - Fl)
    no_periodicity(mon, v, f"{what}: draws", **w)
    independent(mon, v[1:], v[:-1], f"{what}: neighbouring draws", **w)
    independent(mon, v[: n // 2], v[n // 2 : 2 * (n // 2)], f"{what}: halves", **w)
    mon.seen("draws", n)
    return v


def draws(mon, rng, nrep):
    import jax
    import jax.random as jran

    tpk, tpc, tpf, tps = mods()
    n = ND
    v_kern = jax.jit(jax.vmap(tpk.mc_tp_pdf_singlesat, in_axes=(0, 0)))
    v_cen = jax.jit(jax.vmap(tpc.mc_tpeak_singlecen, in_axes=(None, 0, 0, 0, None)))
    v_sat = jax.jit(jax.vmap(tps.mc_tpeak_singlesat, in_axes=(None, 0, 0, 0)))
    single = jax.jit(jax.vmap(tpf.mc_tpeak_singlecen, in_axes=(None, 0, 0, 0, None)))
    one = jax.jit(jax.vmap(tpf.mc_utp_singlecen, in_axes=(None, 0, 0, 0)))
    for rep in range(nrep):
        if rep > 2 and not mon.more():
            break
        key = jran.PRNGKey(int(rng.integers(2**31)))
        key2 = jran.PRNGKey(int(rng.integers(2**31)))
        t0 = float(np.float32(rng.uniform(10, 15)))
        # half of the time all halos alike
        same = rep % 2 == 1
        lgm = np.full(n, rng.uniform(11, 15)) if same else rng.uniform(10, 16, n)
        t_obs = np.full(n, rng.uniform(0.1, 1) * t0) if same else rng.uniform(0.07, 1, n) * t0
        lgm, t_obs = lgm.astype("f4"), t_obs.astype("f4")
        L, T = arr(lgm), arr(t_obs)
        lo, hi = 0.1 + 1e-6, 1.0 - 1e-6
        # --- kernel
        loc = (np.full(n, rng.uniform(0.1001, 0.9999)) if same else rng.uniform(0.1001, 0.9999, n)).astype("f4")
        sc = (np.full(n, 10 ** rng.uniform(-2, 0)) if same else 10 ** rng.uniform(-2, 0, n)).astype("f4")
        l, s = arr(loc), arr(sc)
        ks = tpk.UTP_Params(loc, sc)

        def uniform(x, l, s, what, **w):
            F = ref.tn_cdf(np.clip(x, 0.1, 1), l, s)
            v = judge_draws(mon, rng, x, F, F, lo, hi, 3e-3, what, **w)
            # tails, where the support does not cut them
            for side, m, q in (("upper", l + 4 * s < 1, 1 - v), ("lower", l - 4 * s > 0.1, v)):
                m = np.broadcast_to(m, v.shape)
                for f in (1e-2, 1e-3):
                    rare_fraction(mon, int((q[m] < f).sum()), int(m.sum()), f * 0.88 - 5e-5, f * 1.12 + 5e-5, f"{what}: {side} tail of the distribution", fraction=f, **w)
                mon.seen("draws with free tails", int(m.sum()))
            return v

        w = dict(rep=rep, same=same)
        x = arr(tpk.mc_tp_pdf_satpop(key, ks))
        mon.check(x.shape == (n,), "kernel: one draw per halo", got=x.shape)
        uniform(x, l, s, "kernel", loc=l[:3], scale=s[:3], **w)
        x2 = arr(tpk.mc_tp_pdf_satpop(key2, ks))
        a, b = ref.tn_cdf(x, l, s), ref.tn_cdf(x2, l, s)
        independent(mon, a, b, "kernel: draws of two keys", **w)
        mon.check(np.array_equal(x, arr(tpk.mc_tp_pdf_satpop(key, ks))), "kernel: same key, same draws", **w)
        keys = jran.split(key2, n)
        x = arr(v_kern(keys, ks))
        uniform(x, l, s, "kernel, single halo", loc=l[:3], scale=s[:3], **w)
        mon.case("kernel", rep)
        # --- centrals, truncated normal
        params = randparams(rng, tpc.TPCens_Params, tpc.TPCENS_PBOUNDS)
        p = ref.P(params)
        w = dict(params=params._asdict(), t_0=t0, lgm=L[:3], t_obs=T[:3], rep=rep)
        s = ref.tpc_scale(p, L, T, t0)
        x = arr(tpc.mc_tpeak_cens(params, key, lgm, t_obs, np.float32(t0))) / t0
        uniform(x, 0.95, s, "centrals (truncated normal)", **w)
        x = arr(v_cen(params, keys, lgm, t_obs, np.float32(t0))) / t0
        uniform(x, 0.95, s, "single centrals (truncated normal)", **w)
        mon.case("centrals, truncated normal", rep)
        # --- satellites
        params = randparams(rng, tps.TP_Sats_Params, tps.TP_SATS_BOUNDS)
        p = ref.P(params)
        w = dict(params=params._asdict(), lgm=L[:3], t_obs=T[:3], rep=rep)
        l, s = ref.sat_loc(p, L, T), ref.sat_scale(p, L, T)
        x = arr(tps.mc_utp_pdf(params, key, lgm, t_obs))
        uniform(x, l, s, "satellites, t_peak/t_obs", **w)
        t = arr(tps.mc_tpeak_sats(params, key2, lgm, t_obs))
        mon.check(t < T, "satellites: t_peak before t_obs", **w)
        uniform(t / T, l, s, "satellites", **w)
        t = arr(v_sat(params, keys, lgm, t_obs))
        uniform(t / T, l, s, "single satellites", **w)
        mon.case("satellites", rep)
        # --- centrals, sigmoid CDF with floor and atom at the present
        params = randparams(rng, tpf.TPCens_Params, tpf.TPCENS_PBOUNDS)
        p = ref.P(params)
        w = dict(params=params._asdict(), t_0=t0, lgm=L[:3], t_obs=T[:3], rep=rep)
        for what, x in (
            ("centrals", arr(tpf.mc_t_peak_cenpop(params, lgm, t_obs, key, np.float32(t0))) / t0),
            ("single centrals", arr(single(params, lgm, t_obs, keys, np.float32(t0))) / t0),
            ("centrals, t_peak/t_0", arr(one(params, lgm, t_obs, keys))),
        ):
            F = ref.cen_cdf(p, x, L, T)
            atlo, athi = x <= 0.05 + 1e-6, x >= 1 - 1e-6
            Fl, Fr = np.where(atlo, 0.0, F), np.where(athi, 1.0, F)
            judge_draws(mon, rng, x, Fl, Fr, 0.05 - 1e-6, 1 + 1e-6, 2e-3, what, **w)
            f = np.mean(athi) - np.mean(1 - ref.cen_cdf(p, 1.0, L, T))
            mon.check(abs(f) < 6.5 * 0.5 / np.sqrt(n) + 1e-3, f"{what}: fraction still growing is the one not yet peaked", difference=f, **w)
            mon.seen("draws at the present", int(athi.sum()))
        mon.case("centrals, sigmoid", rep)


def body(mon):
    quick = mon.tier == "quick"
    densities(mon, rng_for(mon, 1), 60 if quick else 3000)
    draws(mon, rng_for(mon, 2), 4 if quick else 300)
    mon.require("density values", 10000)
    mon.require("draws", 20000)
    mon.require("draws at the present", 100)
