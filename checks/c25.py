"""Statistical monitor of Monte Carlo populations against the distribution the model specifies.

Large populations at one mass and time; the drawn parameters are taken back to unbounded space in float64 and
judged by mean, covariance, Gaussianity (Mahalanobis distance), independence between halos, branches, t_peak
and branch selection, by the early fraction, and by the t_peak distribution (Kolmogorov-Smirnov with atoms).
Thresholds are at 6.5 or more standard errors plus a small allowance for single precision.
"""
import numpy as np
from scipy import stats as sst

from harness import gen, ref
from harness.env import rng_for

RULE = "distinct (generator, t_peak given or drawn, parameter vector) populations whose statistics were judged"
ASSUMPTIONS = ["statistical thresholds of >= 6.5 sigma", "scatter kept where the logistic bounding is invertible in single precision"]
Z = 6.5


def apis():
    from diffmah.diffmahpop_kernels import mc_bimod_cens as mc, mc_bimod_sats as ms

    return (("cens", mc.mc_diffmah_cenpop, mc.mc_cenpop), ("sats", ms.mc_diffmah_satpop, ms.mc_satpop))


def stat_params(rng):
    params, mode = gen.pop_params(rng, rng.choice(["uniform", "near_default", "mixed"]))
    d = params._asdict()
    for n in ref.COV_ORDER:
        for s in ("ylo", "yhi"):
            d[f"std_u_{n}_{s}"] = np.float32(10 ** rng.uniform(-1, 0.6))
    if rng.random() < 0.5:  # strong correlations of random sign
        for k in d:
            if k.startswith("rho_"):
                d[k] = np.float32(rng.choice([-1, 1]) * rng.uniform(0.2, 0.29))
    return type(params)(**d), str(mode)


def mean_u(p, lgm, t_obs, tp, br, sat):
    tp = np.asarray(tp, "f8")
    q = (
        ref.pred_logm0(p, lgm, t_obs, tp, br, sat) + 0 * tp,
        ref.pred_logtc(p, lgm, t_obs, tp, br) + 0 * tp,
        ref.pred_early_index(p, lgm, t_obs, tp, br) + 0 * tp,
        ref.pred_late_index(p, lgm, br) + 0 * tp,
        tp,
    )
    return np.stack(ref.unbounded_mah(q)[:4], axis=-1)


def drawn_u(q):
    a = [np.asarray(getattr(q, k), "f8") for k in ref.MAH_FIELDS]
    with np.errstate(all="ignore"):
        return np.stack(ref.unbounded_mah(a)[:4], axis=-1)


def judge_scatter(mon, r, cov, what, /, **w):
    """r: (n, 4) residuals about the predicted mean"""
    n = len(r)
    std = np.sqrt(np.diag(cov))
    mon.check(np.all(np.isfinite(r)), f"{what}: finite residuals", **w)
    m = r.mean(0)
    mon.check_close(m, np.zeros(4), Z * std / np.sqrt(n) + 3e-3, f"{what}: the mean of u is the predicted mean", std=std, **w)
    s = (r.T @ r) / n
    corr = cov / np.outer(std, std)
    se = np.outer(std, std) * np.sqrt((1 + corr**2) / n)
    mon.check_close(s, cov, (Z + 1) * se + 2e-3 * np.outer(std, std) + 1e-4, f"{what}: covariance of u is the specified one", order=ref.COV_ORDER, **w)
    d2 = np.einsum("ni,ij,nj->n", r, np.linalg.inv(cov), r)
    ks = sst.kstest(d2, sst.chi2(4).cdf).statistic
    mon.check(ks < 3.2 / np.sqrt(n) + 2e-3, f"{what}: Gaussian scatter (Mahalanobis distance)", ks=ks, **w)
    z = r / std
    for i in range(4):
        ks = sst.kstest(z[:, i], "norm").statistic
        mon.check(ks < 3.2 / np.sqrt(n) + 5e-3, f"{what}: Gaussian scatter", ks=ks, which=ref.COV_ORDER[i], **w)
        c = np.corrcoef(z[1:, i], z[:-1, i])[0, 1]
        mon.check(abs(c) < Z / np.sqrt(n - 1), f"{what}: neighbouring halos independent", corr=c, which=ref.COV_ORDER[i], **w)
        h = n // 2
        c = np.corrcoef(z[:h, i], z[h : 2 * h, i])[0, 1]
        mon.check(abs(c) < Z / np.sqrt(h), f"{what}: halves independent", corr=c, which=ref.COV_ORDER[i], **w)
        no_periodicity(mon, z[:, i], f"{what}: {ref.COV_ORDER[i]}", **w)
    # tails of independent standard normal numbers
    y = np.abs(np.linalg.solve(np.linalg.cholesky(cov), r.T)).ravel()
    for k in (2.0, 2.5, 3.0, 3.5):
        rare_fraction(mon, int((y > k).sum()), len(y), 2 * sst.norm.sf(k + 0.02), 2 * sst.norm.sf(k - 0.02), f"{what}: draws beyond {k} sigma", **w)
    uniq = len(np.unique(np.round(z, 4), axis=0))
    mon.check(uniq > 0.98 * n, f"{what}: halos are distinct draws", unique=uniq, **w)
    mon.seen("residual vectors", n)
    return z


def no_periodicity(mon, x, what, /, **w):
    """autocorrelation at every lag, from the ranks: repeated or shifted draws show up as a peak"""
    x = np.asarray(x, "f8")
    n = len(x)
    if len(np.unique(x)) < 2:
        return
    if len(np.unique(x)) > 2:
        x = sst.rankdata(x)
    x = (x - x.mean()) / x.std()
    f = np.fft.rfft(x)
    c = np.fft.irfft(f * np.conj(f), n)[1 : n // 2 + 1] / n
    k = int(np.argmax(np.abs(c)))
    mon.check(abs(c[k]) < 7.5 / np.sqrt(n), f"{what}: no draw is used for two halos", correlation=c[k], lag=k + 1, **w)
    mon.seen("lags judged", len(c))


def rare_fraction(mon, got, n, plo, phi, what, /, **w):
    """binomial test at 1e-11 against a probability between plo and phi"""
    ok = sst.binom.cdf(got, n, plo) > 1e-11 and sst.binom.sf(got - 1, n, phi) > 1e-11
    mon.check(ok, what, got=got, want=[n * plo, n * phi], **w)


def mixed_population(mon, rng, apis_, params, p, key, lgt0, t0, n):
    """Every halo with its own mass and time: standardised draws must be independent standard normals."""
    for kind, cenpop, _ in apis_:
        sat = kind == "sats"
        lg = rng.uniform(9.5, 16.0, n).astype("f4")
        to = rng.uniform(0.56, t0, n).astype("f4")
        L, T = lg.astype("f8"), to.astype("f8")
        cov = ref.cov(p, L)[0]
        W = np.linalg.inv(np.linalg.cholesky(cov))
        fe = np.broadcast_to(ref.frac_early(p, L, T), n)
        for given in (True, False):
            kw = {}
            if given:
                kw["t_peak"] = tp0 = (rng.uniform(0.2, 0.98, n) * (T if sat else t0)).astype("f4")
            pop = cenpop(params, lg, to, key, lgt0, **kw)
            what = f"{kind} of all masses, t_peak {'given' if given else 'drawn'}"
            w = dict(lgt0=lgt0)
            tp = np.asarray(pop.mah_params.t_peak, "f8")
            ys = {}
            for br, q in (("early", pop.mah_params_early), ("late", pop.mah_params_late)):
                tq = tp0.astype("f8") if given else np.asarray(q.t_peak, "f8")
                mu = mean_u(p, L, T, tq, br, sat)
                b = ref.bounded_mah([*mu.T, 0.0])
                edge = np.min([np.minimum(b[0], 17 - b[0]), np.minimum(b[1] + 1, 1 - b[1]), np.minimum(b[2] - b[3], 10 - b[2]), np.minimum(b[3] - 0.1, 5 - b[3])], axis=0)
                y = np.einsum("nij,nj->ni", W, drawn_u(q) - mu)
                ys[br] = np.where((edge > 0.02)[:, None], y, np.nan)
                ok = edge > 0.02  # away from the ends of the logistic bounding
                if ok.sum() > 0.2 * n:
                    judge_scatter(mon, y[ok], np.eye(4), f"{what}, {br}", **w)
                for name, part in (("above 10**15", L > 15), ("below 10**10.5", L < 10.5), ("before 2 Gyr", T < 2), ("in the last 10 percent of time", T > 0.9 * t0)):
                    if (ok & part).sum() > 500:
                        judge_scatter(mon, y[ok & part], np.eye(4), f"{what}, {br}, {name}", **w)
                        mon.seen("extreme subsets judged")
            sel = np.asarray(pop.mc_early).astype("f8")
            v = fe * (1 - fe)
            for nm, x in (("", np.ones(n)), (" with mass", L - L.mean()), (" with time", T - T.mean())):
                c = np.sum((sel - fe) * x) / np.sqrt(np.sum(v * x * x) + 1e-300)
                mon.check(abs(c) < Z + 1e-4 * np.sqrt(n), f"{what}: fraction of early halos is the predicted one{nm}", sigmas=c, **w)
            res = (sel - fe) / np.sqrt(np.maximum(v, 1e-4))
            no_periodicity(mon, np.where(v > 0.01, res, 0.0), f"{what}: early/late choice", **w)
            for br, y in ys.items():
                m = np.isfinite(y[:, 0])
                for i in range(4):
                    if m.sum() > 0.2 * n:
                        independent(mon, y[m, i], sel[m] - fe[m], f"{what}: {br} draw {i} and the early/late choice", **w)
            if not given:
                x = tp / (T if sat else t0)
                if sat:
                    loc, sc = ref.sat_loc(p, L, T), ref.sat_scale(p, L, T)
                    lo, hi = (ref.tn_cdf(x * (1 + e), loc, sc) for e in (-2e-4, 2e-4))
                else:  # randomised within the atoms at the two ends
                    d = rng.random(n)
                    F = ref.cen_cdf(p, np.clip(x, 0.05, 1.0), L, T)
                    F = np.where(x <= 0.05 * (1 + 1e-5), d * F, np.where(x >= 1 - 1e-5, F + d * (1 - F), F))
                    lo, hi = F - 2e-5, F + 2e-5
                k = np.arange(1, n + 1)
                ks = max(np.max(k / n - np.sort(hi)), np.max(np.sort(lo) - (k - 1) / n))
                mon.check(ks < 3.2 / np.sqrt(n) + 2e-3, f"{what}: t_peak follows the distribution of its own halo", ks=ks, **w)
                u = 0.5 * (lo + hi)
                no_periodicity(mon, u, f"{what}: t_peak", **w)
                independent(mon, u, L, f"{what}: rank of t_peak and mass", **w)
                independent(mon, u, T, f"{what}: rank of t_peak and time", **w)
                independent(mon, u, sel - fe, f"{what}: t_peak and the early/late choice", **w)
                for br, y in ys.items():
                    m = np.isfinite(y[:, 0])
                    for i in range(4):
                        if m.sum() > 0.2 * n:
                            independent(mon, y[m, i], u[m], f"{what}: {br} draw {i} and t_peak", **w)
                mon.seen("t_peak draws", n)
            mon.case(what, "mixed")


def sharp_population(mon, rng, apis_, params, key, lgt0, t0, n):
    """Nearly no scatter, every halo with its own mass and time: the means are resolved along mass, time and peak time."""
    sd = 0.0101
    d = params._asdict()
    for k in d:
        if k.startswith("std_u_"):
            d[k] = np.float32(sd)
        if k.startswith("rho_"):
            d[k] = np.float32(0.0)
    params = type(params)(**d)
    p = ref.P(params)
    for kind, cenpop, _ in apis_:
        sat = kind == "sats"
        lg = rng.uniform(9.5, 16.0, n).astype("f4")
        to = np.where(rng.random(n) < 0.3, rng.uniform(0.9 * t0, t0, n), rng.uniform(0.56, t0, n)).astype("f4")
        L, T = lg.astype("f8"), to.astype("f8")
        for given in (True, False):
            kw = {}
            if given:
                kw["t_peak"] = np.maximum(0.06, rng.uniform(0.05, 1.0, n) * (T if sat else t0)).astype("f4")
            pop = cenpop(params, lg, to, key, lgt0, **kw)
            for br, q in (("early", pop.mah_params_early), ("late", pop.mah_params_late)):
                what = f"{kind} without scatter, t_peak {'given' if given else 'drawn'}, {br}"
                tq = kw["t_peak"].astype("f8") if given else np.asarray(q.t_peak, "f8")
                mu = mean_u(p, L, T, tq, br, sat)
                b = ref.bounded_mah([*mu.T, 0.0])
                edge = np.min([np.minimum(b[0], 17 - b[0]), np.minimum(b[1] + 1, 1 - b[1]), np.minimum(b[2] - b[3], 10 - b[2]), np.minimum(b[3] - 0.1, 5 - b[3])], axis=0)
                ok = edge > 0.05
                if not ok.any():
                    continue
                r = (drawn_u(q) - mu)[ok]
                mon.check(np.abs(r) < 7.5 * sd + 5e-3, f"{what}: close to the mean", n=int(ok.sum()))
                for by, x in (("time", T[ok]), ("mass", L[ok]), ("peak time", tq[ok])):
                    for part in np.array_split(np.argsort(x, kind="stable"), max(1, min(25, ok.sum() // 200))):
                        tol = Z * sd / np.sqrt(len(part)) + 3e-3
                        mon.check_close(r[part].mean(0), np.zeros(4), tol, f"{what}: the mean of u is the predicted mean along {by}", x=[x[part[0]], x[part[-1]]], lgt0=lgt0)
                mon.seen("halos without scatter", int(ok.sum()))
            mon.case(kind, "without scatter", given)


def independent(mon, a, b, what, /, **w):
    a, b = np.asarray(a, "f8"), np.asarray(b, "f8")
    if np.ptp(a) == 0 or np.ptp(b) == 0:
        return
    for x, y, how in ((a, b, "linear"), ((a - a.mean()) ** 2, b, "square of the first"), (a, (b - b.mean()) ** 2, "square of the second")):
        if np.ptp(x) == 0 or np.ptp(y) == 0:
            continue
        # heavy tails are cut so that the correlation is close to Gaussian
        x = sst.rankdata(x) if len(np.unique(x)) > 2 else x
        y = sst.rankdata(y) if len(np.unique(y)) > 2 else y
        c = np.corrcoef(x, y)[0, 1]
        mon.check(abs(c) < Z / np.sqrt(len(a)), f"{what}: independent", corr=c, how=how, **w)
    mon.seen("independence tests", 3)


def draw_cdf(p, kind, lgm, t_obs, t0):
    """CDF of t_peak from the left and the right"""
    if kind == "cens":
        def F(t, side):
            u = np.asarray(t, "f8") / t0
            u = u * (1 + (1e-5 if side == "r" else -1e-5))
            return ref.cen_draw_cdf(p, u, lgm, t_obs)
    else:
        loc, sc = ref.sat_loc(p, lgm, t_obs), ref.sat_scale(p, lgm, t_obs)

        def F(t, side):
            u = np.asarray(t, "f8") / t_obs
            return ref.tn_cdf(u * (1 + (2e-4 if side == "r" else -2e-4)), loc, sc)
    return F


def judge_t_peak(mon, tp, p, kind, lgm, t_obs, t0, what, /, **w):
    n = len(tp)
    F = draw_cdf(p, kind, lgm, t_obs, t0)
    x = np.sort(np.asarray(tp, "f8"))
    hi, lo = np.searchsorted(x, x, side="right") / n, np.searchsorted(x, x, side="left") / n
    # exceedance of the empirical CDF above F(right) or below F(left)
    d = max(np.max(hi - F(x, "r")), np.max(F(x, "l") - lo))
    mon.check(d < 3.2 / np.sqrt(n) + 2e-3, f"{what}: t_peak follows its distribution", ks=d, **w)
    mon.seen("t_peak draws", n)


def body(mon):
    import jax.random as jran

    quick = mon.tier == "quick"
    n = 20000
    rng = rng_for(mon)
    nrep = 5 if quick else 120
    for rep in range(nrep):
        if rep > 2 and not mon.more():
            break
        params, mode = stat_params(rng)
        p = ref.P(params)
        t0 = [13.8, 13.47, 13.8, 10.0][rep % 4]
        lgt0 = np.float32(np.log10(t0))
        t0 = 10 ** float(lgt0)
        lgm, t_obs = np.float32(rng.uniform(11, 15)), np.float32(rng.uniform(0.2, 1.0) * t0)
        L, T = float(lgm), float(t_obs)
        lg, to = np.full(n, lgm, "f4"), np.full(n, t_obs, "f4")
        cov, _, _ = ref.cov(p, L)
        fe = float(ref.frac_early(p, L, T))
        w = dict(lgm=L, t_obs=T, lgt0=lgt0, mode=mode)
        mon.context = [dict(rep=rep, params=params._asdict())]
        for kind, cenpop, withmah in apis():
            sat = kind == "sats"
            key = jran.PRNGKey(int(rng.integers(2**31)))
            for given in (True, False):
                kw = {}
                if given:
                    tp0 = np.float32(rng.uniform(0.2, 0.98) * (T if sat else t0))
                    kw["t_peak"] = np.full(n, tp0, "f4")
                pop = cenpop(params, lg, to, key, lgt0, **kw)
                what = f"{kind}, t_peak {'given' if given else 'drawn'}"
                tp = np.asarray(pop.mah_params.t_peak, "f8")
                sel = np.asarray(pop.mc_early).astype("f8")
                zs = {}
                for br, q in (("early", pop.mah_params_early), ("late", pop.mah_params_late)):
                    tq = np.full(n, float(tp0)) if given else np.asarray(q.t_peak, "f8")
                    r = drawn_u(q) - mean_u(p, L, T, tq, br, sat)
                    zs[br] = judge_scatter(mon, r, cov, f"{what}, {br}", **w)
                f = sel.mean()
                mon.check(abs(f - fe) < Z * np.sqrt(fe * (1 - fe) / n) + 1e-4, f"{what}: fraction of early halos is the predicted one", got=f, want=fe, **w)
                no_periodicity(mon, sel, f"{what}: early/late choice", **w)
                c = np.corrcoef(sel[1:], sel[:-1])[0, 1]
                mon.check(abs(c) < Z / np.sqrt(n), f"{what}: selections independent from halo to halo", corr=c, **w)
                for i, a in enumerate(ref.COV_ORDER):
                    for br in zs:
                        independent(mon, zs[br][:, i], sel, f"{what}: {br} {a} and the early/late choice", **w)
                        if not given:
                            independent(mon, zs[br][:, i], tp, f"{what}: {br} {a} and t_peak", **w)
                    for j, b in enumerate(ref.COV_ORDER):
                        c = np.corrcoef(zs["early"][:, i], zs["late"][:, j])[0, 1]
                        mon.check(abs(c) < Z / np.sqrt(n), f"{what}: branches independent", corr=c, first=a, second=b, **w)
                if not given:
                    judge_t_peak(mon, tp, p, kind, L, T, t0, what, **w)
                    no_periodicity(mon, tp, f"{what}: t_peak", **w)
                    independent(mon, tp, sel, f"{what}: t_peak and the early/late choice", **w)
                    c = np.corrcoef(tp[1:], tp[:-1])[0, 1] if np.ptp(tp) > 1e-3 * t0 else 0.0
                    mon.check(abs(c) < Z / np.sqrt(n), f"{what}: t_peak independent from halo to halo", corr=c, **w)
                mon.case(what, rep)
            with_histories(mon, rng, withmah, params, p, kind, sat, L, T, lgt0, t0, n, key, cov, fe, w)
        mixed_population(mon, rng, apis(), params, p, jran.PRNGKey(int(rng.integers(2**31))), lgt0, t0, n)
        sharp_population(mon, rng, apis(), params, jran.PRNGKey(int(rng.integers(2**31))), lgt0, t0, n)
    mon.context = []
    for _ in range(1 if quick else 8):
        one_halo_populations(mon, rng, 2500 if quick else 20000)
        huge_populations(mon, rng, 70001 if quick else int(rng.choice([70001, 131072, 300000])))
    mon.require("populations of one halo", 2000)
    mon.require("residual vectors", 10000)
    mon.require("t_peak draws", 10000)
    mon.require("branches told apart", 2000)


def one_halo_populations(mon, rng, nkeys):
    """Populations of a single halo, over many keys: the choice of the branch follows the predicted fraction"""
    import jax
    import jax.random as jran

    from checks.c24 import far_apart

    lgt0 = np.float32(np.log10(13.8))
    for frac, flip in ((0.3, False), (0.7, True)):
        params = far_apart(rng, flip)
        params = params._replace(**{k: np.float32(frac) for k in params._fields if k.startswith("fec_lgm_y")})
        p = ref.P(params)
        lg, to = np.array([rng.uniform(11.5, 14.5)], "f4"), np.array([rng.uniform(5, 13.5)], "f4")
        fe = float(ref.frac_early(p, float(lg[0]), float(to[0])))
        w = dict(lgm=lg, t_obs=to, predicted=fe)
        for kind, cenpop, withmah in apis():
            keys = jran.split(jran.PRNGKey(int(rng.integers(2**31))), nkeys)
            sel = np.asarray(jax.vmap(lambda k: cenpop(params, lg, to, k, lgt0).mc_early)(keys)).astype("f8").ravel()
            mon.check(abs(sel.mean() - fe) < Z * np.sqrt(fe * (1 - fe) / nkeys) + 1e-4, f"{kind}: fraction of early halos over populations of one halo", got=sel.mean(), **w)
            q = jax.vmap(lambda k: withmah(params, np.array([1.0, 5.0], "f4"), lg, to, k, lgt0).mah_params)(keys)
            tp, x = np.asarray(q.t_peak, "f8").ravel(), np.asarray(q.early_index, "f8").ravel()
            e, l = (ref.pred_early_index(p, float(lg[0]), float(to[0]), tp, br) for br in ("early", "late"))
            clear = np.abs(e - l) > 1.0
            m = int(clear.sum())
            if m > 200:
                f = (np.abs(x - e) < np.abs(x - l))[clear].mean()
                mon.check(abs(f - fe) < Z * np.sqrt(fe * (1 - fe) / m) + 1e-4, f"{kind}: fraction of early halos over populations of one halo, with histories", got=f, n_clear=m, **w)
            mon.seen("populations of one halo", 2 * nkeys)
            mon.case(kind, "one halo", frac)


def huge_populations(mon, rng, n):
    """No two halos of a large population share their draws"""
    import jax.random as jran

    params, _ = stat_params(rng)
    lgt0 = np.float32(np.log10(13.8))
    lg, to = np.full(n, rng.uniform(11.5, 14.5), "f4"), np.full(n, rng.uniform(5, 13.5), "f4")
    for kind, cenpop, withmah in apis():
        key = jran.PRNGKey(int(rng.integers(2**31)))
        pops = {
            "t_peak drawn": cenpop(params, lg, to, key, lgt0).mah_params_early,
            "t_peak given": cenpop(params, lg, to, key, lgt0, t_peak=np.full(n, 4.0, "f4")).mah_params_late,
            "histories": withmah(params, np.array([5.0], "f4"), lg, to, key, lgt0).mah_params,
        }
        for what, q in pops.items():
            x = np.ascontiguousarray(np.stack([np.asarray(v, "f4") for v in q[:4]], axis=1))
            distinct = len(np.unique(x.view("V16")))
            mon.check(x.shape == (n, 4) and distinct > 0.999 * n, f"{kind}, {what}: every halo of a large population has its own draws", got=distinct, want=n)
            mon.seen("halos of large populations", n)
            mon.case(kind, what, "large", n)


def with_histories(mon, rng, withmah, params, p, kind, sat, L, T, lgt0, t0, n, key, cov, fe, w):
    """The generator that also returns histories: fraction and scatter of its (mixed) sample."""
    b = gen.all_bounds()
    d = params._asdict()
    for ab, f in (("alpha", 0.97), ("beta", 0.05)):
        for k in ("early_index_ylo_ylo", "early_index_ylo_yhi", "early_index_yhi_ylo", "early_index_yhi_yhi"):
            lo, hi = map(float, b[f"{k}_{ab}"])
            d[f"{k}_{ab}"] = np.float32(lo + f * (hi - lo))
    d["std_u_early_ylo"] = d["std_u_early_yhi"] = np.float32(0.15)
    params = type(params)(**d)
    p = ref.P(params)
    cov = ref.cov(p, L)[0]
    tarr = np.asarray([1.0, t0], "f4")
    pop = withmah(params, tarr, np.full(n, L, "f4"), np.full(n, T, "f4"), key, lgt0)
    tp = np.asarray(pop.mah_params.t_peak, "f8")
    u = drawn_u(pop.mah_params)
    mu = {br: mean_u(p, L, T, tp, br, sat) for br in ("early", "late")}
    de, dl = np.abs(u[:, 2] - mu["early"][:, 2]), np.abs(u[:, 2] - mu["late"][:, 2])
    s = np.sqrt(cov[2, 2])
    gap = np.abs(mu["early"][:, 2] - mu["late"][:, 2]).min()
    what = f"{kind} with histories"
    judge_t_peak(mon, tp, p, kind, L, T, t0, what, **w)
    if gap < 14 * s:
        mon.seen("branches too close to tell apart", n)
        return
    is_e = de < dl
    no_periodicity(mon, is_e.astype("f8"), f"{what}: early/late choice", **w)
    no_periodicity(mon, tp, f"{what}: t_peak", **w)
    mon.seen("branches told apart", n)
    f = is_e.mean()
    mon.check(abs(f - fe) < Z * np.sqrt(fe * (1 - fe) / n) + 1e-4, f"{what}: fraction of early halos is the predicted one", got=f, want=fe, **w)
    for br, m in (("early", is_e), ("late", ~is_e)):
        z = judge_scatter(mon, (u - mu[br])[m], cov, f"{what}, {br}", **w)
        for i, a in enumerate(ref.COV_ORDER):
            independent(mon, z[:, i], tp[m], f"{what}: {br} {a} and t_peak", **w)
    independent(mon, tp, is_e.astype("f8"), f"{what}: t_peak and the early/late choice", **w)
    c = np.corrcoef(is_e[1:], is_e[:-1])[0, 1]
    mon.check(abs(c) < Z / np.sqrt(n), f"{what}: selections independent from halo to halo", corr=c, **w)
    mon.case(what, mon.events["branches told apart"])
