"""Monitor of the population losses: definition recovered from the loss itself, and gradients.

The loss is a quadratic of its targets, so its derivative with respect to them reveals the predictions it used:
they are compared with the predictor, the loss is recomputed from them in float64 for random targets, and set
to zero by choosing them as targets. Gradients with respect to the population parameters are compared with
central differences of the very loss, in a child process in double precision and, coarsely, in single.
"""
import json
import os
import subprocess
import sys
import tempfile

import numpy as np

from harness import gen, ref
from harness.env import REPO, HarnessError, rng_for

RULE = "distinct (loss, number of bins, parameter mode, what was judged) combinations"
ASSUMPTIONS = ["finite differences are taken in double precision (JAX_ENABLE_X64) in a child process"]
NT = 10


def mods():
    from diffmah.diffmahpop_kernels import (
        bimod_cens_fithelp as cf,
        bimod_censat_fithelp as csf,
        bimod_censat_params as bcp,
        bimod_sats_fithelp as sf,
        mc_bimod_cens as mc,
        mc_bimod_sats as ms,
    )

    return bcp, cf, sf, csf, mc, ms


def bins(rng, nb, t0, dt, nt=NT, lo=0.25):
    lgm = np.asarray(rng.uniform(11, 15, nb), dt)
    t_obs = np.asarray(np.maximum(rng.uniform(lo, 1.0, nb) * t0, 0.56), dt)
    if nb > 1 and lo < 0.25:  # an early and a late bin
        t_obs[0], t_obs[-1] = rng.uniform(0.56, 1.0), rng.uniform(0.98, 1.0) * t0
    tarr = np.asarray(np.sort(rng.uniform(0.1, 1.0, (nb, nt)), axis=1) * t_obs[:, None], dt)
    return tarr, lgm, t_obs


def targets(rng, nb, dt, nt=NT):
    return (
        np.asarray(rng.uniform(9, 14, (nb, nt)), dt), np.asarray(rng.uniform(0.05, 0.8, (nb, nt)), dt), np.asarray(rng.uniform(0, 1, (nb, nt)), dt),
    )


def definition(mu, sd, T, S):
    mu, sd, T, S = [np.asarray(x, "f8") for x in (mu, sd, T, S)]
    return float(np.mean(np.mean((mu - T) ** 2, axis=1) + np.mean((sd - S) ** 2, axis=1)))


_VG = {}


def recover(loss, args, T, S):
    """Predictions the loss compares its targets with: T - dL/dT * n/2 (T, S: tuples of matrices)"""
    import jax

    if loss not in _VG:
        _VG[loss] = jax.jit(jax.grad(lambda T, S, args: loss(T, S, args), argnums=(0, 1)))
    gT, gS = _VG[loss](T, S, args)
    out = []
    for t, g, s, h in zip(T, gT, S, gS):
        n = t.size / 2.0
        out += [np.asarray(t, "f8") - np.asarray(g, "f8") * n, np.asarray(s, "f8") - np.asarray(h, "f8") * n]
    return out


def loss_cens(T, S, args):
    params, tarr, lgm, t_obs, key, lgt0, Fp = args
    return mods()[1].loss_mah_moments_multibin(params, tarr, lgm, t_obs, key, lgt0, T[0], S[0], Fp)


def loss_sats(T, S, args):
    params, tarr, lgm, t_obs, key, lgt0, Fp = args
    return mods()[2].loss_mah_moments_multibin(params, tarr, lgm, t_obs, key, lgt0, T[0], S[0], Fp)


def loss_both(T, S, args):
    params, tc, lc, oc, ts, ls, os_, key, lgt0, Fc, Fs = args
    return mods()[3].loss_mah_moments_multibin_censat(params, tc, lc, oc, ts, ls, os_, key, lgt0, T[0], S[0], Fc, T[1], S[1], Fs)


def predictions(mod, params, tarr, lgm, t_obs, key, lgt0):
    import jax.random as jran

    keys = jran.split(key, len(lgm))
    out = [mod.predict_mah_moments_singlebin(params, tarr[i], lgm[i], t_obs[i], keys[i], lgt0) for i in range(len(lgm))]
    return np.array([np.asarray(o[0], "f8") for o in out]), np.array([np.asarray(o[1], "f8") for o in out])


def judge_recovered(mon, rng, again, mod, params, tarr, lgm, t_obs, key, lgt0, mu, sd, what, /, **w):
    """key: the bin's key if keys are split as now; again(key): predictions of the loss for another key of its own"""
    m, s = predictions(mod, params, tarr, lgm, t_obs, key, lgt0)
    tol = 3e-4
    if np.all(np.abs(mu - m) < tol) and np.all(np.abs(sd - s) < tol):
        mon.check(True, "predictions used by the loss are those of the predictor for the bin's key", n=mu.size)
        mon.seen("predictions identified exactly", mu.size)
        return
    # other keys: the predictions must still be those of the right bin, within the sampling error of many keys
    import jax.random as jran

    K = 60
    keys = [jran.PRNGKey(int(rng.integers(2**31))) for _ in range(2 * K)]
    a = [again(k) for k in keys[:K]]
    b = [predictions(mod, params, tarr, lgm, t_obs, k, lgt0) for k in keys[K:]]
    for i, nm, power in ((0, "mean", 1), (1, "scatter", 2)):
        x, y = [np.array([np.asarray(r[i], "f8") ** power for r in z]) for z in (a, b)]
        se = np.sqrt((x.var(axis=0) + y.var(axis=0)) / K)
        mon.check_close(x.mean(0), y.mean(0), 9 * se + 3e-4 * (1 + np.abs(y.mean(0))), f"{what}: {nm} used by the loss is the predicted {nm} of each bin", t_obs=t_obs, lgm=lgm, lgt0=lgt0, **w)
    mon.seen("predictions identified statistically", mu.size)


def lossjudge(mon, name, got, want, what, /, **w):
    tol = 2e-5 * abs(want) + 3e-5 * np.sqrt(abs(want)) + 1e-8
    mon.check_close(float(got), want, tol, f"{name}: {what}", **w)


def structure(mon, rng, nrep, nbs):
    import jax.random as jran

    bcp, cf, sf, csf, mc, ms = mods()
    dt = "f4"
    for rep in range(nrep):
        if rep > 2 and not mon.more():
            break
        params, mode = gen.pop_params(rng, ["default", "uniform", "near_default", "mixed"][rep % 4])
        t0, lo = [(13.8, 0.25), (13.47, 0.04), (rng.uniform(5, 9.9), 0.1)][rep % 3]
        if rep % 3 == 1:  # hardly any scatter: small differences between predictions show
            low = {k: np.float32(0.0101 if k.startswith("std_u_") else 0.0) for k in params._fields if k.startswith(("std_u_", "rho_"))}
            params, mode = params._replace(**low), "no scatter"
        lgt0 = np.float32(np.log10(t0))
        key = jran.PRNGKey(int(rng.integers(2**31)))
        mon.context = [dict(rep=rep, params=params._asdict())]
        one = {}
        # as many bins and times for one kind of halo as the caller likes, whatever those of the other
        sizes = nbs[rep % len(nbs)]
        for kind, lfun, mod, (nb, nt) in (("cens", loss_cens, mc, sizes[0]), ("sats", loss_sats, ms, sizes[1])):
            w = dict(mode=mode, nb=nb, nt=nt)
            tarr, lgm, t_obs = bins(rng, nb, t0, dt, nt, lo)
            T, S, Fp = targets(rng, nb, dt, nt)
            args = (params, tarr, lgm, t_obs, key, lgt0, Fp)
            f = lambda a, b: lfun((a,), (b,), args)
            L = f(T, S)
            mon.check(np.shape(L) == () and np.isfinite(float(L)), f"{kind}: finite scalar loss", got=np.shape(L))
            mu, sd = recover(lfun, args, (T,), (S,))
            lossjudge(mon, kind, L, definition(mu, sd, T, S), "equals its definition at the predictions it uses", **w)
            T2, S2, _ = targets(rng, nb, dt, nt)
            lossjudge(mon, kind, f(T2, S2), definition(mu, sd, T2, S2), "equals its definition for other targets", **w)
            # targets far away: nothing bounds the loss
            T4 = np.asarray(mu + 10 ** rng.uniform(1, 3.5) * rng.uniform(-1, 1, mu.shape), dt)
            lossjudge(mon, kind, f(T4, S2), definition(mu, sd, T4, S2), "equals its definition for distant targets", **w)
            # one element of one target moved: each element counts with the same weight
            i, j = int(rng.integers(nb)), int(rng.integers(nt))
            T3 = np.asarray(mu, dt)
            T3[i, j] += np.float32(0.5)
            lossjudge(mon, kind, f(T3, np.asarray(sd, dt)), 0.25 / T.size, "every time of every bin has the same weight", element=[i, j], **w)
            S3 = np.asarray(sd, dt)
            S3[i, j] += np.float32(0.5)
            lossjudge(mon, kind, f(np.asarray(mu, dt), S3), 0.25 / T.size, "every time of every bin has the same weight (scatter)", element=[i, j], **w)
            z = float(f(np.asarray(mu, dt), np.asarray(sd, dt)))
            mon.check(0 <= z < 1e-8, f"{kind}: zero when the targets are the predictions", got=z, **w)
            again = lambda k: recover(lfun, (params, tarr, lgm, t_obs, k, lgt0, Fp), (T,), (S,))
            judge_recovered(mon, rng, again, mod, params, tarr, lgm, t_obs, key, lgt0, mu, sd, kind, **w)
            m, s = predictions(mod, params, tarr, lgm, t_obs, key, lgt0)
            one[kind] = (tarr, lgm, t_obs, T, S, Fp)
            mon.case(kind, nb, mode, "definition")
            mon.seen("losses judged", 5)
        # combined
        tc, lc, oc, Tc, Sc, Fc = one["cens"]
        w = dict(mode=mode, sizes=sizes)
        ts, ls, os_, Ts, Ss, Fs = one["sats"]
        args = (params, tc, lc, oc, ts, ls, os_, key, lgt0, Fc, Fs)
        g = lambda a, b, c, d: loss_both((a, c), (b, d), args)
        L = g(Tc, Sc, Ts, Ss)
        muc, sdc, mus, sds = recover(loss_both, args, (Tc, Ts), (Sc, Ss))
        want = definition(muc, sdc, Tc, Sc) + definition(mus, sds, Ts, Ss)
        lossjudge(mon, "censat", L, want, "sum of the central and the satellite loss", **w)
        z = float(g(*[np.asarray(x, dt) for x in (muc, sdc, mus, sds)]))
        mon.check(0 <= z < 1e-8, "censat: zero when the targets are the predictions", got=z, **w)
        zc = float(g(np.asarray(muc, dt), np.asarray(sdc, dt), Ts, Ss))
        lossjudge(mon, "censat", zc, definition(mus, sds, Ts, Ss), "only the satellite part is left when the centrals agree", **w)
        kc, ks = jran.split(key, 2)
        both = lambda k: recover(loss_both, (params, tc, lc, oc, ts, ls, os_, k, lgt0, Fc, Fs), (Tc, Ts), (Sc, Ss))
        judge_recovered(mon, rng, lambda k: both(k)[:2], mc, params, tc, lc, oc, kc, lgt0, muc, sdc, "censat centrals", **w)
        judge_recovered(mon, rng, lambda k: both(k)[2:], ms, params, ts, ls, os_, ks, lgt0, mus, sds, "censat satellites", **w)
        mon.case("censat", str(sizes), mode, "definition")
        mon.seen("losses judged", 3)


# ------------------------------------------------------------------ child processes
FORMS = "equivalent forms"
GRADS = ("cens u", "sats", "censat u", "censat")


def forms(rng, nrep):
    """u_params and varied forms equal the loss at the full bounded parameters."""
    import jax.random as jran

    bcp, cf, sf, csf, mc, ms = mods()
    out = []
    for rep in range(nrep):
        params, mode = gen.pop_params(rng, ["uniform", "near_default", "mixed", "default"][rep % 4])
        nb, t0 = 2, [13.8, 8.5][rep % 2]
        lgt0, key = np.float32(np.log10(t0)), jran.PRNGKey(int(rng.integers(2**31)))
        tc, lc, oc = bins(rng, nb, t0, "f4")
        ts, ls, os_ = bins(rng, nb, t0, "f4")
        Tc, Sc, Fc = targets(rng, nb, "f4")
        Ts, Ss, Fs = targets(rng, nb, "f4")
        ldc = (tc, lc, oc, key, lgt0, Tc, Sc, Fc)
        lds = (ts, ls, os_, key, lgt0, Ts, Ss, Fs)
        ldx = (tc, lc, oc, ts, ls, os_, key, lgt0, Tc, Sc, Fc, Ts, Ss, Fs)
        names = list(params._fields)
        u_full = bcp.get_diffmahpop_u_params_from_params(params)
        p_full = bcp.get_diffmahpop_params_from_u_params(u_full)

        def put(what, a, b):
            out.append(dict(what=what, a=float(a), b=float(b), mode=mode, params=[float(v) for v in p_full]))

        central = lambda p: cf.loss_mah_moments_multibin(p, *ldc)
        both = lambda p: csf.loss_mah_moments_multibin_censat(p, *ldx)
        put("combined loss of unbounded parameters is that of their bounded values", csf.loss_mah_moments_multibin_censat_u_params(u_full, ldx), both(p_full))
        # a subset varied, the others at the defaults (the same subset always: one compilation)
        keep = names[3::7]
        excl = [k for k in names if k not in keep]
        varied = bcp.get_varied_params_by_exclusion(p_full, excl)
        merged = bcp.DEFAULT_DIFFMAHPOP_PARAMS._replace(**varied._asdict())
        put("combined loss of varied parameters is that of the merged full set", both(varied), both(merged))
        uv = bcp.get_varied_params_by_exclusion(u_full, ["u_" + k for k in excl])
        m2 = bcp.get_diffmahpop_params_from_u_params(bcp.DEFAULT_DIFFMAHPOP_U_PARAMS._replace(**uv._asdict()))
        put("combined loss of varied unbounded parameters is that of the merged set", csf.loss_mah_moments_multibin_censat_u_params(uv, ldx), both(m2))
        put("central loss of varied unbounded parameters is that of the merged set", cf.loss_mah_moments_multibin_u_params(uv, ldc), central(m2))
    return out


def child(fn, name, seed, nrep):
    """One loss: gradients (and, in double precision, central differences), written as JSON."""
    import jax
    import jax.random as jran

    bcp, cf, sf, csf, mc, ms = mods()
    x64 = bool(jax.config.jax_enable_x64)
    dt = "f8" if x64 else "f4"
    rng = np.random.default_rng([seed, 2828, len(name), int(x64)])
    if name == FORMS:
        json.dump(forms(rng, nrep), open(fn, "w"))
        return
    out = []
    modes = ["near_default", "uniform", "mixed"] if x64 else ["default", "mixed", "uniform", "near_default"]
    sats_vg = jax.jit(sf.loss_and_grads_mah_moments_multibin)
    for rep in range(nrep):
        params, mode = gen.pop_params(rng, modes[rep % len(modes)])
        params = type(params)(*[float(v) for v in params])
        nb, t0 = 2, 13.8
        lgt0 = np.log10(t0)
        key = jran.PRNGKey(int(rng.integers(2**31)))
        tc, lc, oc = bins(rng, nb, t0, dt)
        ts, ls, os_ = bins(rng, nb, t0, dt)
        Tc, Sc, Fc = targets(rng, nb, dt)
        Ts, Ss, Fs = targets(rng, nb, dt)
        u = bcp.get_diffmahpop_u_params_from_params(params)
        p = bcp.get_diffmahpop_params_from_u_params(u)
        if name == "cens u":
            x, ld = u, ((tc, lc, oc, key, lgt0, Tc, Sc, Fc),)
            vg, f = cf.loss_and_grads_mah_moments_multibin, cf.loss_mah_moments_multibin_u_params
        elif name == "sats":
            x, ld = p, (ts, ls, os_, key, lgt0, Ts, Ss, Fs)
            vg, f = sats_vg, sf.loss_mah_moments_multibin
        else:
            ld = (tc, lc, oc, ts, ls, os_, key, lgt0, Tc, Sc, Fc, Ts, Ss, Fs)
            if name == "censat u":
                x, ld = u, (ld,)
                vg, f = csf.loss_and_grads_mah_moments_multibin_censat_u_params, csf.loss_mah_moments_multibin_censat_u_params
            else:
                x = p
                vg, f = csf.loss_and_grads_mah_moments_multibin_censat, csf.loss_mah_moments_multibin_censat
        l, g = vg(x, *ld)
        F = lambda z: float(f(type(x)(*[float(t) for t in z]), *ld))
        a = np.array([float(v) for v in x])
        d = dict(name=name, mode=mode, rep=rep, names=list(x._fields), gnames=list(g._fields), x64=x64, loss=float(l), loss2=F(a),
                 g=[float(v) for v in g], x=a.tolist())
        if x64:
            step = np.maximum(np.abs(a), 0.1) * 3e-6 if x is p else np.full(len(a), 3e-5)
            fd, fd2 = [], []
            for i in range(len(a)):
                e = np.zeros(len(a))
                e[i] = step[i]
                fd.append((F(a + e) - F(a - e)) / (2 * step[i]))
                fd2.append((F(a + 2 * e) - F(a - 2 * e)) / (4 * step[i]))
            d.update(fd=fd, fd2=fd2, step=step.tolist())
        if name == "cens u":
            d["bounded"] = float(cf.loss_mah_moments_multibin(p, *ld[0]))
        out.append(d)
    json.dump(out, open(fn, "w"))


def launch(name, seed, nrep, x64):
    with tempfile.TemporaryDirectory() as d:
        fn = os.path.join(d, "out.json")
        env = dict(os.environ, JAX_ENABLE_X64=str(int(x64)))
        r = subprocess.run([sys.executable, "-m", "checks.c28", fn, name, str(seed), str(nrep)], cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
                           env=env, capture_output=True, text=True)
        if r.returncode != 0:
            return name, x64, r.stderr
        return name, x64, json.load(open(fn))


def judge_child(mon, name, x64, res):
    if isinstance(res, str):
        frames = [l for l in res.splitlines() if l.strip().startswith("File ") and (REPO + "/" in l or os.getcwd() in l)]
        if frames and REPO + "/" in frames[-1]:
            mon.check(False, "population loss raised on valid input", loss=name, x64=x64, stderr=res[-3000:])
        raise HarnessError(res[-3000:])
    for d in res:
        if name == FORMS:
            mon.check_close(d["a"], d["b"], 5e-4 * abs(d["b"]) + 1e-6, d["what"], mode=d["mode"], params=d["params"])
            mon.seen("equivalent forms")
            mon.case(d["what"], d["mode"])
            continue
        g = np.array(d["g"])
        w = dict(loss=d["name"], mode=d["mode"], names=d["names"], x=d["x"], x64=x64)
        mon.check(np.isfinite(g), f"{name}: gradients finite", **w)
        mon.check(d["names"] == d["gnames"], f"{name}: gradient has the fields of the parameters", got=d["gnames"])
        tol = (1e-10 * abs(d["loss2"]) + 1e-13) if x64 else 5e-4 * abs(d["loss2"]) + 1e-6
        mon.check_close(d["loss"], d["loss2"], tol, f"{name}: value returned with the gradient is the loss", mode=d["mode"], x64=x64)
        mon.seen("gradient components finite", g.size)
        mon.case(name, d["mode"], d["rep"], x64)
        if "bounded" in d:
            mon.check_close(d["loss2"], d["bounded"], 1e-6 * abs(d["bounded"]) if x64 else 5e-4 * abs(d["bounded"]) + 1e-6, "central loss of unbounded parameters is that of their bounded values", **w)
            mon.seen("equivalent forms")
        if x64:
            fd, fd2 = np.array(d["fd"]), np.array(d["fd2"])
            # the spread of the two difference quotients bounds the effect of kinks (clips, t_peak crossing a sample)
            tol = 2e-3 * np.abs(g) + 1e-5 * np.abs(g).max() + 3 * np.abs(fd - fd2) + 1e-9 * abs(d["loss"]) / np.array(d["step"]) * 1e-3 + 1e-12
            mon.check_close(g, fd, tol, f"{name}: gradient matches finite differences of the returned loss", **w)
            mon.seen("gradient components compared with finite differences", g.size)
            mon.seen("of these nonzero", int((np.abs(g) > 1e-8).sum()))


def body(mon):
    quick = mon.tier == "quick"
    from concurrent.futures import ThreadPoolExecutor

    n = 1 if quick else 12
    jobs = [("censat u", mon.seed, n, True), (FORMS, mon.seed, n + 1, False), ("sats", mon.seed, n, True), ("cens u", mon.seed, n, True), ("censat u", mon.seed, n, False)]
    jobs += [] if quick else [("censat", mon.seed, n, True)] + [(k, mon.seed, n, False) for k in ("cens u", "sats", "censat")]
    with ThreadPoolExecutor(6) as ex:
        fs = [ex.submit(launch, *j) for j in jobs]
        structure(mon, rng_for(mon), 4 if quick else 80, [((3, NT), (2, 7))] if quick else [((3, NT), (2, 7)), ((1, NT), (4, NT)), ((6, 5), (6, 5)), ((2, 30), (1, 12))])
        mon.context = []
        for f in fs:
            judge_child(mon, *f.result())
    mon.require("losses judged", 10)
    mon.require("equivalent forms", 5)
    mon.require("of these nonzero", 50)


if __name__ == "__main__":
    from harness import env

    env.prepare()
    child(sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4]))
    sys.stdout.flush()
    os._exit(0)
