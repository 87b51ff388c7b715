"""Reference monitor of the scatter covariance: formula, symmetry, positive definiteness, batching."""
import numpy as np

from harness import gen, ref
from harness.env import double, priv, rng_for

RULE = "distinct (parameter mode, mass regime, entry point, tuple type) covariance matrices judged"
ASSUMPTIONS = ["masses between 5 and 20 in log10"]


def body(mon):
    import jax
    import jax.numpy as jnp

    from diffmah.diffmahpop_kernels import bimod_censat_params as bcp, covariance_kernels as ck

    quick = mon.tier == "quick"
    rng = rng_for(mon)
    one = ck._get_diffmahpop_cov
    batch = priv(ck, "_get_diffmahpop_cov_vmap")
    if batch is None:
        batch = jax.jit(jax.vmap(one, in_axes=(None, 0)))
        mon.skip("_get_diffmahpop_cov_vmap renamed: vmap of the single-mass call used")
    nrep = 120 if quick else 4000
    for rep in range(nrep):
        if rep > 10 and not mon.more():
            break
        mode = ["uniform", "edges", "mixed", "corner", "default"][rep % 5]
        if mode == "default":
            c = ck.DEFAULT_COV_PARAMS
        else:
            c = gen.in_bounds_params(rng, ck.CovParams, ck.COV_PBOUNDS, "edges" if mode == "corner" else mode)
            if mode == "corner":  # correlations at their bounds, signs at random
                d = {k: (np.float32(ck.COV_PBOUNDS._asdict()[k][int(rng.integers(2))]) if k.startswith("rho_") else v) for k, v in c._asdict().items()}
                c = ck.CovParams(**d)
            elif rng.random() < 0.15:
                d = {k: (np.float32(0.0) if k.startswith("rho_") and rng.random() < 0.5 else v) for k, v in c._asdict().items()}
                c = ck.CovParams(**d)
            elif rng.random() < 0.15:  # weak correlations
                d = {k: (np.float32(rng.choice([-1, 1]) * 10 ** rng.uniform(-4.5, -2)) if k.startswith("rho_") else v) for k, v in c._asdict().items()}
                c = ck.CovParams(**d)
        full = rep % 2 == 1
        params = bcp.DEFAULT_DIFFMAHPOP_PARAMS._replace(**c._asdict()) if full else c
        n = 24
        lgm = np.asarray(np.where(rng.random(n) < 0.8, rng.uniform(9, 16, n), rng.uniform(5, 20, n)), "f4")
        x0 = float(c.cov_lgm_x0_logm0)
        lgm[0] = np.float32(x0)
        M = np.asarray(batch(params, lgm), "f8")
        mon.check(M.shape == (n, 4, 4), "shape of the batch", got=M.shape)
        want, std, corr = ref.cov(ref.P(c), lgm.astype("f8"))
        scale = std[:, :, None] * std[:, None, :]
        w = dict(mode=mode, full=full, lgm=lgm, params=c._asdict())
        # ylo + (yhi - ylo) * s: absolute rounding of the larger end, relative to the value; rounding of 2*(lgm - x0)
        big = np.array([max(float(getattr(c, f"std_u_{k}_ylo")), float(getattr(c, f"std_u_{k}_yhi"))) for k in ref.COV_ORDER])
        rel = 2e-5 + 6e-7 * big / std
        mon.check_close(M / scale, want / scale, rel[:, :, None] + rel[:, None, :], "covariance has the specified entries", order=ref.COV_ORDER, **w)
        mon.check_close(M / scale, np.swapaxes(M, 1, 2) / scale, 1e-6 + 0 * scale, "covariance is symmetric", **w)
        if rep < 40:
            with double():
                M8 = np.asarray(batch(type(params)(*[float(ref.f32(v)) for v in params]), lgm.astype("f8")))
            mon.check_close(M8 / scale, want / scale, 1e-9, "double-precision covariance has the specified entries", order=ref.COV_ORDER, **w)
            mon.seen("double-precision matrices", n)
        sd = np.sqrt(np.einsum("nii->ni", M))
        mon.check_close(sd / std, np.ones_like(std), rel, "diagonal holds the squared standard deviations", **w)
        C = M / (sd[:, :, None] * sd[:, None, :])
        for i in range(4):
            for j in range(i):
                rho = float(getattr(c, f"rho_{ref.COV_ORDER[i]}_{ref.COV_ORDER[j]}"))
                mon.check_close(C[:, i, j], np.full(n, rho), 1e-5, f"correlation of {ref.COV_ORDER[i]} and {ref.COV_ORDER[j]}", rho=rho, **w)
                mon.seen("named correlations", n)
        ev = np.linalg.eigvalsh(C)
        mon.check(ev.min() > 0.05, "positive definite", n=n, smallest=ev.min(), **w)
        mon.sample(mode=mode, smallest_eigenvalue_of_correlation=float(ev.min()), condition=float(np.linalg.cond(M).max()))
        L = np.asarray(jnp.linalg.cholesky(jnp.asarray(M, "f4")))
        mon.check(np.isfinite(L), "single-precision Cholesky factor exists", n=n, **w)
        for i in [0, int(rng.integers(n))]:
            m1 = np.asarray(one(params, lgm[i]), "f8")
            mon.check(m1.shape == (4, 4), "shape of a single matrix", got=m1.shape)
            mon.check_close(m1 / scale[i], M[i] / scale[i], 2e-6 + 0 * scale[i], "one at a time agrees with the batch", index=i, **w)
            if rep < 20:
                m2 = np.asarray(one(params, float(lgm[i])), "f8")
                mon.check_close(m2 / scale[i], m1 / scale[i], 2e-6 + 0 * scale[i], "Python float mass", **w)
        perm = rng.permutation(n)
        Mp = np.asarray(batch(params, lgm[perm]), "f8")
        mon.check_close(Mp / scale[perm], M[perm] / scale[perm], 2e-6 + 0 * scale, "batch order is irrelevant", **w)
        mon.seen("matrices", n)
        for r in np.unique(np.clip((lgm // 2).astype(int), 2, 9)):
            mon.case(mode, int(r), full)
    mon.require("matrices", 500)
