"""Gradient monitor: automatic derivatives against central differences of the float64 model."""
import numpy as np

from harness import gen, ref
from harness.env import rng_for

RULE = "distinct (regime of unbounded parameters, grid size, branch of the t_peak mask, function differentiated)"
ASSUMPTIONS = ["times within 1e-4 of t_peak excluded (the model has a kink there)", "single-precision derivative tolerance 3e-4 of the largest term plus 1e-5"]


def _fd(f, u, h=1e-4):
    cols = []
    for j in range(len(u)):
        a, b = u.copy(), u.copy()
        a[j] += h
        b[j] -= h
        cols.append((f(a) - f(b)) / (2 * h))
    return np.stack(cols, axis=-1)


def body(mon):
    import jax
    from jax import numpy as jnp

    from diffmah import diffmah_kernels as dk
    from diffmah.fitting_helpers import diffmah_fitter_helpers as fh

    rng = rng_for(mon)

    def model(uarr, t, lgt0):
        p = dk.get_bounded_mah_params(dk.DiffmahUParams(*uarr))
        _, lm = dk.mah_singlehalo(p, t, lgt0)
        return lm

    jac = jax.jit(jax.jacrev(model))
    n_rounds = 120 if mon.tier == "quick" else 4000
    for r in range(n_rounds):
        if r > 20 and not mon.more():
            break
        width = [5, 15, 30, 60][r % 4]
        u = (gen.default_u() + rng.uniform(-width, width, 5)).astype("f4")
        if r % 3 == 0:  # t_peak inside the time grid
            u[4] = ref.unbound(rng.uniform(2, 12), *ref.MAH_BOUNDS["t_peak"])
        if r % 7 == 3:  # late index close to its ceiling, which is also the ceiling of the early index
            u[3], u[2] = rng.uniform(8, 45), rng.uniform(-40, 40)
            mon.seen("late index near its ceiling")
        lgt0 = np.float32(np.log10(13.8))
        nt = [30, 7][r % 2]
        t = np.sort(gen.times(rng, nt, (), 13.8))
        mon.context = [dict(round=r, u=u.tolist())]
        u8 = u.astype("f8")
        p = ref.bounded_mah(u8)
        keep = np.abs(t / p[4] - 1) > 1e-3
        g = np.asarray(jac(jnp.array(u), t, lgt0)).astype("f8")
        mon.check(np.isfinite(g), "d log_mah / d u finite", n=g.size, u=u, t=t)
        w = _fd(lambda x: ref.log_mah(ref.bounded_mah(x), t.astype("f8"), float(lgt0)), u8)
        # size of the terms entering each derivative: use float32-safe scale
        big = np.maximum(np.abs(w).max(axis=1, keepdims=True), 0.02)
        mon.check_close(g[keep], w[keep], (3e-4 * big + 1e-5 + 0 * w)[keep], "d log_mah / d u vs finite difference", u=u, t=t[keep])
        mon.seen("log-mass derivatives compared", int(keep.sum()) * 5)
        mon.case("log_mah", width, nt, bool((t > p[4]).any()), bool((t < p[4]).any()))
        # the fitter's loss and the gradient handed to the optimizer
        tt = np.sort(rng.uniform(1, 13.8, nt))
        tt = tt[np.abs(tt / p[4] - 1) > 1e-3]
        if len(tt) == 0:
            continue
        target = ref.log_mah(ref.bounded_mah(u8 + rng.normal(0, 2, 5)), tt, float(lgt0)) + rng.normal(0, 0.1, len(tt))
        if r % 5 == 2:  # start far from the data
            target = target + rng.choice([-1, 1]) * rng.uniform(0.5, 9)
            mon.seen("losses far from the data")
        ld = fh.DiffmahFitLossData(tt, target, u[4], np.float64(lgt0))
        uv = fh.VariedDiffmahUParams(*u[:4])

        def loss_ref(x):
            d = ref.log_mah(ref.bounded_mah(np.array([*x, u8[4]])), tt, float(lgt0)) - target
            return np.mean(d * d)

        val, grads = fh.loss_and_grads_kern(uv, ld)
        G = np.array([float(x) for x in grads])
        mon.check(np.isfinite(float(val)) and np.all(np.isfinite(G)), "loss and gradient finite", n=5, u=u, t=tt)
        L = loss_ref(u8[:4])
        mon.check_close(float(val), L, 5e-5 * np.sqrt(L) + 1e-9 + 1e-5 * L, "loss value vs mean square of the float64 model", u=u, t=tt, target=target)
        wl = _fd(lambda x: np.array(loss_ref(x)), u8[:4])
        dl = _fd(lambda x: ref.log_mah(ref.bounded_mah(np.array([*x, u8[4]])), tt, float(lgt0)), u8[:4])
        size = np.sqrt(L) * np.sqrt(np.mean(dl**2, axis=0)).max() + 3e-5 * np.abs(dl).max()
        mon.check_close(G, wl, 2e-3 * size + 2e-6, "gradient of the fitting loss vs finite difference", u=u, t=tt, target=target)
        # as the optimizer wrapper calls it: plain array
        val2, grads2 = fh.loss_and_grads_kern(np.asarray(u[:4], "f8"), ld)
        mon.check_close(np.asarray(grads2), G, 1e-5 * (np.abs(G) + size) + 1e-7, "gradient for a plain array equals gradient for the tuple")
        mon.check_close(float(fh.log_mah_loss_uparams(uv, ld)), float(val), 1e-6 + 1e-5 * L, "loss function and value-and-grad agree")
        mon.seen("loss gradients compared", 4)
        mon.case("loss", width, nt)
    # gradients through populations: vmapped grads equal single-halo grads
    f = lambda logm0, p, t: jnp.sum(dk.mah_halopop(p._replace(logm0=logm0), t, 1.14)[1] ** 2)
    p = dk.DiffmahParams(*[jnp.asarray(x) for x in gen.halos(rng, 6, typical=True)])
    t = jnp.linspace(1.0, 13.0, 9)
    gp = np.asarray(jax.grad(f)(p.logm0, p, t)).astype("f8")
    lm = np.asarray(dk.mah_halopop(p, t, 1.14)[1]).astype("f8")
    mon.check_close(gp, 2 * lm.sum(axis=1), 1e-4 * np.abs(lm).sum(axis=1), "population gradient wrt logm0")
    mon.sample(rounds=r + 1, u=u, grad=G, finite_difference=wl)
    mon.require("loss gradients compared", 100)
