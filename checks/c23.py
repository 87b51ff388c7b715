"""Reference monitor: every mean population relation against its formula in float64, with strict bounds.

Each relation is evaluated through the branch modules, the bimodal wrappers, the full parameter tuple and the
generator's own means; inputs are scalar, batched and at clipping boundaries. Branch and type mix-ups show
because the parameters of the branches are drawn independently.
"""

import numpy as np

from harness import gen, ref
from harness.env import double, priv, rng_for

RULE = "distinct (relation, entry point, parameter mode, clipping regime) situations compared with the formula"
ASSUMPTIONS = ["masses 8-16, times and peak times 0.05-20 Gyr"]

B = "diffmah.diffmahpop_kernels."


def entries():
    """(relation label, function, params selector, reference, lo, hi)"""
    out = []

    def add(label, modname, fname, sel, want, lo, hi, args):
        f = priv(B + modname, fname)
        if f is not None:
            out.append((label, f, sel, want, lo, hi, args))
        return f is not None

    A4 = ("lgm", "t_obs", "t_peak")
    m0lo, m0hi = ref.MAH_BOUNDS["logm0"]
    tclo, tchi = ref.MAH_BOUNDS["logtc"]
    elo, ehi = ref.MAH_BOUNDS["early_index"]
    llo, lhi = ref.MAH_BOUNDS["late_index"]
    for sat, pkg, mod in ((False, "bimod_logm0_kernels", "logm0_pop_bimod"), (True, "bimod_logm0_sats", "logm0_pop_bimod_sats")):
        for br in ("early", "late"):
            w = lambda p, x, br=br, sat=sat: ref.pred_logm0(p, x["lgm"], x["t_obs"], x["t_peak"], br, sat)
            add(f"logm0 {br} sat={sat}", f"{pkg}.{mod}", f"_pred_logm0_kern_{br}", 3 if sat else 2, w, m0lo, m0hi, A4)
            add(f"logm0 {br} sat={sat} (full)", f"{pkg}.{mod}", f"_pred_logm0_kern_{br}", None, w, m0lo, m0hi, A4)
            add(f"logm0 {br} sat={sat} (branch)", f"{pkg}.logm0_pop_{br}", "_pred_logm0_kern", None, w, m0lo, m0hi, A4)
            c0 = lambda p, x, br=br, sat=sat: ref.pred_c0(p, x["t_obs"], x["t_peak"], br, sat)
            c1 = lambda p, x, br=br, sat=sat: ref.pred_c1(p, x["t_obs"], x["t_peak"], br, sat)
            add(f"c0 {br} sat={sat}", f"{pkg}.logm0_c0_{br}", "_pred_c0_kern", None, c0, None, None, A4[1:])
            add(f"c1 {br} sat={sat}", f"{pkg}.logm0_c1_{br}", "_pred_c1_kern", None, c1, None, None, A4[1:])
    for br, ab in (("early", "alpha"), ("late", "beta")):
        w = lambda p, x, br=br: ref.pred_logtc(p, x["lgm"], x["t_obs"], x["t_peak"], br)
        add(f"logtc {br}", f"logtc_{br}", "_pred_logtc_kern", 4, w, tclo, tchi, A4)
        w = lambda p, x, br=br: ref.pred_early_index(p, x["lgm"], x["t_obs"], x["t_peak"], br)
        add(f"early {br}", "early_index_bimod", f"_pred_early_index_{br}", 5, w, elo, ehi, A4)
        add(f"early {br} (branch)", f"early_index_{ab}", "_pred_early_index_kern", None, w, elo, ehi, A4)
        w = lambda p, x, br=br: ref.pred_late_index(p, x["lgm"], br)
        add(f"late {br}", "late_index_bimod", f"_pred_late_index_{br}", 6, w, llo, lhi, ("lgm",))
        add(f"late {br} (branch)", f"late_index_{ab}", "_pred_late_index_kern", None, w, llo, lhi, ("lgm",))
    w = lambda p, x: ref.frac_early(p, x["lgm"], x["t_obs"])
    add("frac_early", "frac_early_cens", "_frac_early_cens_kern", 7, w, 0, 1, A4[:2])
    add("frac_early (full)", "frac_early_cens", "_frac_early_cens_kern", None, w, 0, 1, A4[:2])
    return out


def inputs(rng, n):
    lgm = np.asarray(rng.uniform(8, 16, n), "f4")
    t_obs = np.asarray(np.where(rng.random(n) < 0.5, rng.uniform(0.5, 14, n), 10 ** rng.uniform(-1.3, 1.3, n)), "f4")
    t_peak = np.asarray(np.where(rng.random(n) < 0.5, rng.uniform(0.1, 1, n) * t_obs, 10 ** rng.uniform(-1.3, 1.3, n)), "f4")
    lgm[:1], t_obs[:1], t_peak[:1] = 12.0, 10.0, 10.0
    return dict(lgm=lgm, t_obs=t_obs, t_peak=t_peak)


def tolerance(x, label):
    # a few float32 roundings of the terms entering each formula
    if label.startswith("logm0"):
        return 1.5e-5
    return 1e-5


def judge(mon, label, got, want, lo, hi, x, p, mode, entry):
    got = np.asarray(got)
    mon.check(got.dtype.kind == "f", "float result", relation=label)
    mon.check_close(got, want, tolerance(x, label), f"{label.split(' (')[0]} equals its formula", relation=label, entry=entry, mode=mode, x=x, params=p)
    g = got.astype("f8")
    if lo is not None:
        strict = (g > lo) & (g < hi) if not label.startswith("frac") else (g >= lo) & (g <= hi)
        mon.check(strict, f"{label.split(' (')[0]} inside its bounds", n=g.size, relation=label, mode=mode, lo=lo, hi=hi, got=g, x=x, params=p)
        clipped = bool(np.any((want <= lo + 1.01e-3) | (want >= hi - 1.01e-3)))
    else:
        clipped = False
    mon.case(label, entry, mode, clipped)
    mon.seen("clipped predictions", int(clipped))
    mon.seen("predictions", g.size)


def body(mon):
    from diffmah.diffmahpop_kernels import bimod_censat_params as bcp

    quick = mon.tier == "quick"
    E = entries()
    if len(E) < 10:
        mon.skip("renamed prediction helpers: judged through the generator means only")
    rng = rng_for(mon, "relations")
    nrep = 30 if quick else 400
    n = 64
    for rep in range(nrep):
        if not mon.more():
            break
        params, mode = gen.pop_params(rng, ["uniform", "edges", "mixed", "edges", ["near_default", "default"][rep == 4]][rep % 5])
        comps = bcp.get_component_model_params(params)
        p = ref.P(params)
        x = inputs(rng, n)
        x8 = {k: v.astype("f8") for k, v in x.items()}
        got = {}
        for label, f, sel, want, lo, hi, args in E:
            q = params if sel is None else comps[sel]
            r = f(q, *[x[a] for a in args])
            w = np.broadcast_to(want(p, x8), (n,))
            judge(mon, label, r, w, lo, hi, x, params._asdict(), mode, "batch")
            got[label] = np.asarray(r)
            if rep in (0, 1, 2, 3, 6, 8):  # in double precision nothing hides below single-precision rounding
                with double():
                    q8 = type(q)(*[float(ref.f32(v)) for v in q])
                    r8 = np.asarray(f(q8, *[x8[a] for a in args]))
                mon.check_close(r8, w, 1e-9 * (1 + np.abs(w)), f"{label.split(' (')[0]} equals its formula in double precision", relation=label, mode=mode, x=x, params=params._asdict())
                mon.seen("double-precision predictions", r8.size)
            if rep < 5:  # scalar entry
                i = int(rng.integers(n))
                r = f(q, *[[float, np.float32][rep % 2](x[a][i]) for a in args])
                judge(mon, label, np.asarray(r), w[i], lo, hi, {k: v[i] for k, v in x.items()}, params._asdict(), mode, "scalar")
        for br in ("early", "late"):
            if f"early {br}" in got and f"late {br}" in got:
                mon.check(got[f"early {br}"] > got[f"late {br}"], "mean early index exceeds mean late index", n=n, branch=br, x=x, params=params._asdict())
        mon.seen("parameter vectors")
    relations_alone(mon, rng_for(mon, "alone"), 8 if quick else 200)
    generator_means(mon, rng_for(mon, "means"), 20 if quick else 300)
    mon.require("predictions", 1000)


def relations_alone(mon, rng, nrep):
    """Relations that are not part of the combined model: ftpt0 and the single-population early index."""
    from diffmah.diffmahpop_kernels import early_index_pop as eip, ftpt0_cens as ft

    for rep in range(nrep):
        mode = ["uniform", "edges", "mixed"][rep % 3]
        for mod, fname, D, Bn, label in (
            (ft, "_ftpt0_kernel", ft.DEFAULT_FTPT0_PARAMS, ft.FTPT0_PBOUNDS, "frac ftpt0"),
            (eip, "_pred_early_index_kern", eip.DEFAULT_EARLY_INDEX_PARAMS, eip.EARLY_INDEX_PBOUNDS, "early pop"),
        ):
            f = priv(mod, fname)
            if f is None:
                mon.skip(f"{fname} renamed")
                continue
            q = gen.in_bounds_params(rng, type(D), Bn, mode) if rep else D
            x = inputs(rng, 64)
            x8 = {k: v.astype("f8") for k, v in x.items()}
            if label == "frac ftpt0":
                got, want, lo, hi = f(q, x["lgm"], x["t_obs"]), ref.ftpt0(ref.P(q), x8["lgm"], x8["t_obs"]), 0, 1
            else:
                got = f(q, x["lgm"], x["t_obs"], x["t_peak"])
                want = ref.pred_early_index(ref.P(q), x8["lgm"], x8["t_obs"], x8["t_peak"], "pop")
                lo, hi = ref.MAH_BOUNDS["early_index"]
            judge(mon, label, got, want, lo, hi, x, q._asdict(), mode, "batch")


def generator_means(mon, rng, nrep):
    """The means the generators use, at the t_peak they drew."""
    import jax.random as jran

    from diffmah.diffmahpop_kernels import mc_bimod_cens as mc, mc_bimod_sats as ms

    for rep in range(nrep):
        params, mode = gen.pop_params(rng)
        p = ref.P(params)
        lgm, t_obs, t0 = np.float32(rng.uniform(10, 15.5)), np.float32(rng.uniform(0.8, 13.8)), np.float32(13.8)
        key = jran.PRNGKey(int(rng.integers(2**31)))
        for sat, mod in ((False, mc), (True, ms)):
            f, ftp = priv(mod, "_mean_diffmah_params"), priv(mod, "_mean_diffmah_params_t_peak")
            for g, tp in ((f, None), (ftp, np.float32(rng.uniform(0.1, 1) * t_obs))):
                if g is None:
                    mon.skip("generator mean helpers renamed")
                    continue
                args = (params, lgm, t_obs, key, np.log10(t0)) if tp is None else (params, lgm, t_obs, tp, key)
                early, late, fe = g(*args)
                for br, q in (("early", early), ("late", late)):
                    t = float(q.t_peak)
                    if tp is not None:
                        mon.check(np.float32(t) == tp, "t_peak supplied by the caller is kept", got=t, want=tp, sat=sat)
                    a = (float(lgm), float(t_obs), t)
                    want = (
                        ref.pred_logm0(p, *a, br, sat), ref.pred_logtc(p, *a, br), ref.pred_early_index(p, *a, br), ref.pred_late_index(p, a[0], br),
                    )
                    got = [float(q.logm0), float(q.logtc), float(q.early_index), float(q.late_index)]
                    mon.check_close(got, want, 2e-5, "generator mean equals the formulas of its branch and type", branch=br, sat=sat, args=a, fixed=tp is not None, params=params._asdict())
                    mon.case("mean", br, sat, mode, tp is None)
                    mon.seen("generator means")
                mon.check_close(float(fe), ref.frac_early(p, float(lgm), float(t_obs)), 1e-5, "early fraction of the generator", sat=sat)
