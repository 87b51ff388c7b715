"""Differential monitor of one workload under the configurations JAX offers.

The same calls on the same inputs are made by child processes with compilation disabled, in double precision,
with NaN debugging and with tracer-leak checking, and by this one: every result must be the same within the
rounding error of single precision. In this process the same values are passed in other containers and from
inside the caller's own jit, vmap and grad.
"""
import os
import subprocess
import sys
import tempfile

import numpy as np

from harness import gen, ref
from harness.env import REPO, HarnessError, double, priv, rng_for

RULE = "distinct (configuration or container or transformation, probe) pairs compared"
ASSUMPTIONS = [
    "Monte Carlo draws for a key are compared within a precision only: JAX draws other bits in double precision, where the two populations are compared statistically",
    "halos have in-bounds parameters away from the bounds, where single precision resolves them",
]
CONFIGS = {
    "default": {},
    "no compilation": dict(JAX_DISABLE_JIT="1"),
    "double precision": dict(JAX_ENABLE_X64="1"),
    "NaN debugging": dict(JAX_DEBUG_NANS="1"),
    "tracer-leak checking": dict(JAX_CHECK_TRACER_LEAKS="1"),
    "double precision and NaN debugging": dict(JAX_ENABLE_X64="1", JAX_DEBUG_NANS="1"),
    "no compilation, double precision": dict(JAX_ENABLE_X64="1", JAX_DISABLE_JIT="1"),
}
NH, NT, NPOP = 12, 25, 300


def halo_inputs(rng):
    p = gen.halos(rng, NH, typical=True)
    t = np.sort(np.asarray(rng.uniform(0.3, 13.8, NT), "f4"))
    # never within rounding of a peak time, where the accretion rate is discontinuous
    for v in p[4]:
        t = np.where(np.abs(t - v) < 1e-3, t + np.float32(5e-3), t)
    return p, np.sort(np.asarray(t, "f4")), np.float32(np.log10(13.8))


def pop_inputs(rng, full):
    params, mode = gen.pop_params(rng, "near_default")
    lgm = np.asarray(rng.uniform(11, 14.5, NPOP), "f4")
    t_obs = np.asarray(rng.uniform(3, 13.5, NPOP), "f4")
    t_peak = np.asarray(rng.uniform(0.2, 0.95, NPOP) * t_obs, "f4")
    tarr = np.asarray(np.linspace(0.5, 13.5, 8), "f4")
    return params, lgm, t_obs, t_peak, tarr


def probes(seed, names):
    """All results, as {name: (kind, array)}; kind: det (any precision), key (same precision), pop (statistical)."""
    import jax
    import jax.numpy as jnp
    import jax.random as jran

    import diffmah
    from diffmah import diffmah_kernels as dk
    from diffmah import utils
    from diffmah.diffmahpop_kernels import bimod_cens_fithelp as cf
    from diffmah.diffmahpop_kernels import bimod_censat_fithelp as csf
    from diffmah.diffmahpop_kernels import bimod_censat_params as bcp
    from diffmah.diffmahpop_kernels import mc_bimod_cens as mc
    from diffmah.diffmahpop_kernels import mc_bimod_sats as ms
    from diffmah.diffmahpop_kernels.t_peak_kernels import tp_pdf_cens, tp_pdf_cens_flex, tp_pdf_sats
    from diffmah.fitting_helpers import diffmah_fitter_helpers as fh

    x64 = bool(jax.config.jax_enable_x64)
    dt = "f8" if x64 else "f4"
    up = lambda x: np.asarray(x, dt)
    out = {}

    def put(name, kind, x, n=None):
        out[f"{kind}|{name}"] = np.asarray(x, "f8") if np.asarray(x).dtype != bool else np.asarray(x, "f8")

    rng = np.random.default_rng([seed, 3301])
    if "halo" in names:
        p, t, lgt0 = halo_inputs(rng)
        p, t, lgt0 = [up(x) for x in p], up(t), up(lgt0)
        P = dk.DiffmahParams(*p)
        for i in range(NH):
            d, m = diffmah.mah_singlehalo(dk.DiffmahParams(*[x[i] for x in p]), t, lgt0)
            put(f"single log mah {i}", "det", m)
            put(f"single rate {i}", "rate", d)
        d, m = diffmah.mah_halopop(P, t, lgt0)
        put("pop log mah", "det", m)
        put("pop rate", "rate", d)
        put("logmh_at_t_obs", "det", diffmah.logmh_at_t_obs(P, np.resize(t, NH), lgt0))
        u = dk.get_unbounded_mah_params(P)
        put("u params", "u", np.array([np.asarray(x) for x in u]))
        q = dk.get_bounded_mah_params(dk.DiffmahUParams(*u))
        put("bounded params", "det", np.array([np.asarray(x) for x in q]))
        g = jax.grad(lambda pp: diffmah.mah_singlehalo(pp, t, lgt0)[1].sum())(dk.DiffmahParams(*[x[0] for x in p]))
        put("gradient of log mah", "grad", np.array([float(v) for v in g]))
        g = jax.grad(lambda pp: diffmah.logmh_at_t_obs(pp, t[NT // 2], lgt0))(dk.DiffmahParams(*[x[1] for x in p]))
        put("gradient of logmh_at_t_obs", "grad", np.array([float(v) for v in g]))
    rng = np.random.default_rng([seed, 3302])
    if "utils" in names:
        x = up(np.asarray(rng.normal(12, 1, 101), "f4"))
        put("trimmed mean", "det", utils.trimmed_mean(x, 0.0625))
        put("trimmed mean and variance", "det", np.array(utils.trimmed_mean_and_variance(x, 0.0625)))
        put("cholesky", "det", utils.get_cholesky_from_params(up(np.asarray(rng.normal(size=10), "f4"))))
        corr = np.eye(4) + 0.2 * (1 - np.eye(4))
        sd = np.array([0.5, 1.0, 2.0, 4.0])
        cov = utils.covariance_from_correlation(up(corr), up(sd))
        put("covariance", "det", cov)
        put("correlation", "det", utils.correlation_from_covariance(cov))
        put("dt", "det", utils.get_dt_array(np.sort(x)))
    rng = np.random.default_rng([seed, 3303])
    if "fit" in names:
        for k in range(2):
            tt = np.linspace(0.6, 13.8, 70)
            par = [rng.uniform(11, 14), rng.uniform(-0.2, 0.5), rng.uniform(1.8, 3.2), rng.uniform(0.15, 0.6), [16.0, 9.0][k]]
            lg = np.maximum.accumulate(ref.log_mah(par, tt, np.log10(13.8)) + 0.03 * np.sin(rng.uniform(0, 6) + 5 * np.log(tt)))
            r = fh.diffmah_fitter(tt, 10**lg)
            put(f"fit {k} history", "fit", ref.log_mah([float(v) for v in r.p_best], tt[10:], np.log10(13.8)))
            put(f"fit {k} loss", "fitloss", float(r.loss_best))
            put(f"fit {k} status", "det", [float(r.skip_fit), float(r.p_best.t_peak)])
    rng = np.random.default_rng([seed, 3304])
    params, lgm, t_obs, t_peak, tarr = pop_inputs(rng, False)
    params = type(params)(*[up(v) for v in params])
    lgm, t_obs, t_peak, tarr = up(lgm), up(t_obs), up(t_peak), up(tarr)
    lgt0, key = up(np.float32(np.log10(13.8))), jran.PRNGKey(int(seed) + 5)
    if "popdet" in names:
        u = bcp.get_diffmahpop_u_params_from_params(params)
        put("pop u params", "u", np.array([float(v) for v in u]))
        put("pop params", "det", np.array([float(v) for v in bcp.get_diffmahpop_params_from_u_params(u)]))
        for nm, mod in (("cens", mc), ("sats", ms)):
            f = priv(mod, "_mean_diffmah_params_t_peak")
            if f is not None:
                e, l, fr = f(params, lgm, t_obs, t_peak, key)
                full = lambda v: np.asarray(v) + np.zeros(NPOP)
                put(f"{nm} mean relations", "det", np.array([full(v) for v in (*e, *l, fr)]))
        put("cdf of t_peak, centrals", "det", np.array([np.asarray(tp_pdf_cens_flex._frac_peaked_vs_lgm(params, up(x), lgm, t_obs)) for x in (0.2, 0.6, 0.9)])) if priv(
            tp_pdf_cens_flex, "_frac_peaked_vs_lgm") else None
        f = priv("diffmah.diffmahpop_kernels.covariance_kernels", "_get_diffmahpop_cov")
        if f is not None:
            put("scatter covariance", "relmax", np.array([np.asarray(f(params, m)) for m in lgm[:5]]))
    if "mc" in names:
        flat = lambda hp: np.array([np.asarray(v) for v in hp])
        a = mc.mc_diffmah_cenpop(params, lgm, t_obs, key, lgt0)
        put("mc_diffmah_cenpop", "key", flat(a.mah_params))
        put("mc_diffmah_cenpop type", "key", np.asarray(a.mc_early)[None])
        put("mc_diffmah_cenpop fixed t_peak", "key", flat(mc.mc_diffmah_cenpop(params, lgm, t_obs, key, lgt0, t_peak=t_peak).mah_params))
        a = ms.mc_diffmah_satpop(params, lgm, t_obs, key, lgt0)
        put("mc_diffmah_satpop", "key", flat(a.mah_params))
        a = mc.mc_cenpop(params, tarr, lgm, t_obs, key, lgt0)
        put("mc_cenpop", "key", np.concatenate([flat(a.mah_params), np.asarray(a.log_mah).T]))
        put("centrals", "pop", np.asarray(a.log_mah).T)
        a = ms.mc_satpop(params, tarr, lgm, t_obs, key, lgt0)
        put("mc_satpop", "key", np.concatenate([flat(a.mah_params), np.asarray(a.log_mah).T]))
        put("satellites", "pop", np.asarray(a.log_mah).T)
    if "moments" in names:
        for nm, mod in (("cens", mc), ("sats", ms)):
            mu, sd, fp = mod.predict_mah_moments_singlebin(params, tarr[:6], lgm[0], t_obs[0], key, lgt0)
            put(f"{nm} moments", "mom", np.array([np.asarray(mu), np.asarray(sd)]))
    if "loss" in names:
        T = up(np.tile(np.linspace(9, 12, 6), (2, 1)))
        S = up(np.full((2, 6), 0.3))
        tm = np.tile(tarr[:6], (2, 1))
        l, g = csf.loss_and_grads_mah_moments_multibin_censat(params, tm, lgm[:2], t_obs[:2], tm, lgm[:2], t_obs[:2], key, lgt0, T, S, S, T, S, S)
        put("population loss", "loss", l)
        put("gradient of the population loss", "gradpop", np.array([float(v) for v in g]))
    return out


def launch(cfg, seed, names):
    with tempfile.TemporaryDirectory() as d:
        fn = os.path.join(d, "out.npz")
        env = {k: v for k, v in os.environ.items() if not k.startswith("JAX_") or k == "JAX_PLATFORMS"}
        env.update(CONFIGS[cfg])
        r = subprocess.run([sys.executable, "-m", "checks.c33", fn, str(seed), names], env=env, capture_output=True, text=True,
                           cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
        if r.returncode != 0:
            return cfg, r.stderr
        with np.load(fn) as z:
            return cfg, {k: z[k] for k in z.files}


# tolerance of each kind of result, given the reference value
def tolerance(kind, want, other_precision):
    a = np.abs(want)
    top = a.max(initial=0)
    return {
        "det": 2e-5 * np.maximum(a, 1) + 1e-5,
        "u": 2e-3 * np.maximum(a, 1),
        "rate": 3e-4 * a + 1e-5 * top,
        "relmax": 1e-4 * a + 1e-5 * top,
        "grad": 1e-3 * a + 1e-4 * top,
        "fit": 0 * a + 2e-3,
        "fitloss": 0.03 * a + 1e-6,
        "key": 3e-3 * np.maximum(a, 1),
        "mom": 0 * a + 2e-3,
        "loss": 3e-3 * a + 1e-6,
        "gradpop": 0.02 * a + 5e-3 * top,
    }[kind]


def judge(mon, cfg, base, got):
    if isinstance(got, str):
        frames = [l for l in got.splitlines() if l.strip().startswith("File ") and (REPO + "/" in l or os.getcwd() in l)]
        # the same probes ran without error in the default configuration, so that an exception is this configuration's
        ran = bool(base) and "\nTraceback" in "\n" + got and not any(e in got for e in ("MemoryError", "OSError", "BlockingIOError", "RESOURCE_EXHAUSTED"))
        if ran or (frames and REPO + "/" in frames[-1]):
            mon.check(False, "a call raised in this configuration", configuration=cfg, stderr=got[-3000:])
        raise HarnessError(got[-3000:])
    x64 = "double" in cfg or "x64" in cfg
    for k in sorted(got):
        kind, name = k.split("|")
        a, b = got[k], base.get(k)
        mon.check(np.isfinite(a), "finite in every configuration", n=a.size, configuration=cfg, probe=name)
        if b is None:
            continue
        w = dict(configuration=cfg, probe=name)
        mon.check(a.shape == b.shape, "the same shape in every configuration", got=a.shape, want=b.shape, **w)
        if kind == "pop":
            n = a.shape[1]
            se = np.sqrt(a.std(1) ** 2 / n + b.std(1) ** 2 / n)
            mon.check_close(a.mean(1), b.mean(1), 6 * se + 1e-3, "population means agree between configurations", **w)
            mon.check_close(a.std(1), b.std(1), 0.4 * b.std(1) + 1e-2, "population scatters agree between configurations", **w)
        elif x64 and kind in ("key", "mom", "loss", "gradpop"):
            continue  # other random bits
        elif kind == "key":
            bad = np.any(np.abs(a - b) > tolerance(kind, b, x64), axis=0)
            # a draw may fall within rounding of the type threshold
            mon.check(bad.sum() <= 1 + 0.005 * bad.size, "Monte Carlo draws for a key are the same in every configuration", n=bad.size, halos_changed=int(bad.sum()), **w)
        else:
            mon.check_close(a, b, tolerance(kind, b, x64), "the same result in every configuration", **w)
        mon.seen("values compared between configurations", a.size)
        mon.seen(f"values compared: {cfg}", a.size)
        mon.case(cfg, name)


# ------------------------------------------------------------------ containers and callers, in this process
def containers(mon, rng):
    import jax.numpy as jnp

    import diffmah
    from diffmah import diffmah_kernels as dk
    from diffmah.diffmahpop_kernels import bimod_censat_params as bcp
    from diffmah.diffmahpop_kernels import mc_bimod_cens as mc
    import jax.random as jran

    p, t, lgt0 = halo_inputs(rng)
    scal = {
        "Python float": float, "numpy f4 scalar": np.float32, "numpy f8 scalar": np.float64, "0-d array": np.asarray, "JAX scalar": jnp.asarray,
    }
    arr = {"numpy f4": lambda x: np.asarray(x, "f4"), "numpy f8": lambda x: np.asarray(x, "f8"), "JAX": jnp.asarray, "strided view": lambda x: np.repeat(x, 2)[::2], "read-only": ro}
    P0 = dk.DiffmahParams(*[x[0] for x in p])
    d0, m0 = [np.asarray(x, "f8") for x in diffmah.mah_singlehalo(P0, t, lgt0)]
    ok0 = float(diffmah.logmh_at_t_obs(P0, t[7], lgt0))
    u0 = np.array([float(v) for v in dk.get_unbounded_mah_params(P0)])
    for sn, sc in scal.items():
        P = dk.DiffmahParams(*[sc(x) for x in P0])
        for an, ar in arr.items():
            d, m = diffmah.mah_singlehalo(P, ar(t), sc(lgt0))
            w = dict(scalars=sn, arrays=an)
            mon.check_close(m, m0, tolerance("det", m0, 0), "history does not depend on the containers of the inputs", **w)
            mon.check_close(d, d0, tolerance("rate", d0, 0), "rate does not depend on the containers of the inputs", **w)
            mon.case("container", sn, an)
            mon.seen("values compared between containers", 2 * NT)
        mon.check_close(float(diffmah.logmh_at_t_obs(P, sc(t[7]), sc(lgt0))), ok0, 1e-4, "mass at t_obs does not depend on the containers", scalars=sn)
        mon.check_close(np.array([float(v) for v in dk.get_unbounded_mah_params(P)]), u0, tolerance("u", u0, 0), "unbounded parameters do not depend on the containers", scalars=sn)
    a0 = [np.asarray(x, "f8") for x in diffmah.mah_halopop(dk.DiffmahParams(*p), t, lgt0)]
    for an, ar in arr.items():
        a = [np.asarray(x, "f8") for x in diffmah.mah_halopop(dk.DiffmahParams(*[ar(x) for x in p]), ar(t), lgt0)]
        mon.check_close(a[1], a0[1], tolerance("det", a0[1], 0), "population histories do not depend on the containers", arrays=an)
        mon.check_close(a[0], a0[0], tolerance("rate", a0[0], 0), "population rates do not depend on the containers", arrays=an)
        b = diffmah.logmh_at_t_obs(dk.DiffmahParams(*[ar(x) for x in p]), ar(np.resize(t, NH)), lgt0)
        mon.check_close(b, [float(diffmah.logmh_at_t_obs(dk.DiffmahParams(*[x[i] for x in p]), np.resize(t, NH)[i], lgt0)) for i in range(NH)], 1e-4,
                        "lightcone masses do not depend on the containers", arrays=an)
        mon.seen("values compared between containers", a0[0].size * 2)
        mon.case("container pop", an)
    # population model
    params, lgm, t_obs, t_peak, tarr = pop_inputs(rng, False)
    key = jran.PRNGKey(3)
    base = np.array([np.asarray(v) for v in mc.mc_diffmah_cenpop(params, lgm, t_obs, key, lgt0).mah_params], "f8")
    for sn, sc in scal.items():
        for an, ar in list(arr.items())[:3]:
            if (sn, an) in (("numpy f4 scalar", "numpy f4"), ("Python float", "numpy f8"), ("JAX scalar", "JAX"), ("Python float", "JAX")):
                got = np.array([np.asarray(v) for v in mc.mc_diffmah_cenpop(type(params)(*[sc(v) for v in params]), ar(lgm), ar(t_obs), key, sc(lgt0)).mah_params], "f8")
                bad = np.any(np.abs(got - base) > tolerance("key", base, 0), axis=0)
                mon.check(bad.sum() <= 1 + 0.005 * bad.size, "draws for a key do not depend on the containers of the inputs", halos_changed=int(bad.sum()), scalars=sn, arrays=an)
                mon.case("container mc", sn, an)


def precise(mon, rng):
    """In double precision results are good to double precision, whatever container carries the inputs."""
    import jax.numpy as jnp

    import diffmah
    from diffmah import diffmah_kernels as dk

    p, t, lgt0 = halo_inputs(rng)
    p = [ref.f32(x) + rng.uniform(0, 1e-7, NH) for x in p]  # not single-precision numbers
    t, x0 = ref.f32(t) * (1 + 1e-9), float(np.log10(13.8))
    for i in range(4):
        row = [float(x[i]) for x in p]
        m = ref.log_mah(row, t, x0)
        d, ds = ref.dmhdt(row, t, x0)
        u = np.array(ref.unbounded_mah(row))
        with double():
            for sn, sc in {"Python float": float, "numpy f8 scalar": np.float64, "0-d array": np.asarray, "JAX scalar": jnp.asarray}.items():
                P = dk.DiffmahParams(*[sc(v) for v in row])
                w = dict(scalars=sn, params=row)
                for k in (0, NT // 2, NT - 1):
                    mon.check_close(float(diffmah.logmh_at_t_obs(P, sc(t[k]), sc(x0))), m[k], 1e-9, "mass at a time in double precision", t=t[k], **w)
                r, g = diffmah.mah_singlehalo(P, t, sc(x0))
                mon.check_close(np.asarray(g), m, 1e-9, "history in double precision", **w)
                mon.check_close(np.asarray(r), d, 1e-8 * ds + 1e-300, "rate in double precision", **w)
                mon.check_close(np.array([float(v) for v in dk.get_unbounded_mah_params(P)]), u, 1e-7 * (1 + np.abs(u)), "unbounded parameters in double precision", **w)
                mon.case("double", sn)
                mon.seen("values judged in double precision", 2 * NT + 8)


def ro(x):
    y = np.array(x)
    y.flags.writeable = False
    return y


def callers(mon, rng):
    import jax
    import jax.numpy as jnp
    import jax.random as jran

    import diffmah
    from diffmah import diffmah_kernels as dk
    from diffmah import utils
    from diffmah.diffmahpop_kernels import bimod_censat_params as bcp
    from diffmah.diffmahpop_kernels import mc_bimod_cens as mc
    from diffmah.diffmahpop_kernels import mc_bimod_sats as ms

    p, t, lgt0 = halo_inputs(rng)
    P = dk.DiffmahParams(*p)
    one = lambda i: dk.DiffmahParams(*[x[i] for x in p])
    tt = np.resize(t, NH)
    direct = dict(
        single=np.array([np.asarray(diffmah.mah_singlehalo(one(i), t, lgt0)[1]) for i in range(NH)]),
        at=np.array([float(diffmah.logmh_at_t_obs(one(i), tt[i], lgt0)) for i in range(NH)]),
        u=np.array([[float(v) for v in dk.get_unbounded_mah_params(one(i))] for i in range(NH)]),
    )
    f = dict(
        single=lambda q, x, x0: diffmah.mah_singlehalo(q, t, lgt0)[1], at=lambda q, x, x0: diffmah.logmh_at_t_obs(q, x, x0), u=lambda q, x, x0: jnp.array(dk.get_unbounded_mah_params(q))
    )
    for nm, fn in f.items():
        want = np.asarray(direct[nm], "f8")
        tol = tolerance("u" if nm == "u" else "det", want, 0)
        ways = {
            "jit": lambda: [jax.jit(fn)(one(i), tt[i], lgt0) for i in range(NH)],
            "vmap": lambda: jax.vmap(fn, in_axes=(0, 0, None))(P, tt, lgt0),
            "jit of vmap": lambda: jax.jit(jax.vmap(fn, in_axes=(0, 0, None)))(P, tt, lgt0),
            "vmap over all arguments": lambda: jax.vmap(fn)(P, tt, np.full(NH, lgt0)),
            "value_and_grad": lambda: [jax.value_and_grad(lambda q: (lambda v: (v.sum(), v))(fn(q, tt[i], lgt0)), has_aux=True)(one(i))[0][1] for i in range(4)],
            "jvp": lambda: [jax.jvp(lambda q: fn(q, tt[i], lgt0), (one(i),), (one(i),))[0] for i in range(4)],
            "scan": lambda: jax.lax.scan(lambda c, z: (c, fn(dk.DiffmahParams(*z[0]), z[1], lgt0)), 0.0, (tuple(p), tt))[1],
        }
        for way, run in ways.items():
            got = np.asarray(run(), "f8")
            k = len(got)
            mon.check_close(got, want[:k], tol[:k], "the same value inside the caller's transformation", function=nm, transformation=way)
            mon.case("caller", nm, way)
            mon.seen("values compared between callers", got.size)
    # population draws inside jit and vmap of the caller
    params, lgm, t_obs, t_peak, tarr = pop_inputs(rng, False)
    key = jran.PRNGKey(int(rng.integers(2**31)))
    for nm, fn in (
        ("mc_diffmah_cenpop", lambda k: jnp.array(mc.mc_diffmah_cenpop(params, lgm, t_obs, k, lgt0).mah_params)),
        ("mc_diffmah_satpop", lambda k: jnp.array(ms.mc_diffmah_satpop(params, lgm, t_obs, k, lgt0).mah_params)),
    ):
        want = np.asarray(fn(key), "f8")
        for way, run in {"jit": lambda: jax.jit(fn)(key), "vmap": lambda: jax.vmap(fn)(key[None])[0]}.items():
            got = np.asarray(run(), "f8")
            bad = np.any(np.abs(got - want) > tolerance("key", want, 0), axis=0)
            mon.check(bad.sum() <= 1 + 0.005 * bad.size, "draws for a key are the same inside the caller's transformation", function=nm, transformation=way, halos_changed=int(bad.sum()))
            mon.case("caller", nm, way)
    u = np.array([float(v) for v in bcp.get_diffmahpop_u_params_from_params(params)])
    uj = jax.jit(bcp.get_diffmahpop_u_params_from_params)(params)
    mon.check_close([float(v) for v in uj], u, tolerance("u", u, 0), "population mapping inside jit")
    x = np.asarray(rng.normal(size=33), "f4")
    mon.check_close(jax.jit(utils.trimmed_mean)(x, 0.125), float(utils.trimmed_mean(x, 0.125)), 1e-5, "trimmed mean inside jit")
    mon.check_close(jax.vmap(utils.get_cholesky_from_params)(x[None, :10])[0], np.asarray(utils.get_cholesky_from_params(x[:10])), 1e-6, "Cholesky factor inside vmap")


def body(mon):
    from concurrent.futures import ThreadPoolExecutor

    quick = mon.tier == "quick"
    det = "halo,utils,fit,popdet"
    everything = det + ",mc,moments,loss"
    cfgs = list(CONFIGS)[:5] if quick else list(CONFIGS)
    rounds = 1 if quick else 3
    for r in range(rounds):
        seed = int(mon.seed) * 100 + r
        # the costly probes in the configurations where their values can be compared
        jobs = []
        for c in cfgs:
            if quick and c == "default":
                jobs += [(c, seed, det + ",mc"), (c, seed, "moments,loss")]
            elif quick:
                jobs += [(c, seed, det + ",mc")] + ([(c, seed, "moments,loss")] if c == "no compilation" else [])
            else:
                jobs.append((c, seed, everything))
        with ThreadPoolExecutor(8) as ex:
            fs = [ex.submit(launch, *j) for j in jobs]
            containers(mon, rng_for(mon, "containers", r))
            callers(mon, rng_for(mon, "callers", r))
            precise(mon, rng_for(mon, "precise", r))
            res = [f.result() for f in fs]
        base = {}
        for c, x in res:
            if c == "default":
                if isinstance(x, str):
                    judge(mon, c, {}, x)
                base.update(x)
        for c, x in res:
            judge(mon, c, base, x)
    mon.require("values compared between configurations", 5000)
    mon.require("values compared between containers", 500)
    mon.require("values compared between callers", 500)
    mon.require("values judged in double precision", 200)


if __name__ == "__main__":
    from harness import env

    env.prepare()
    res = probes(int(sys.argv[2]), sys.argv[3].split(","))
    np.savez(sys.argv[1], **res)
    sys.stdout.flush()
    os._exit(0)
