"""Monitor of the fitters and losses of the population's component relations.

Every loss is recomputed in float64 from an independent implementation of the relation it fits, its gradient is
compared with central differences of that implementation, and every fit is judged by that same recomputation:
the reported loss is the loss at the reported parameters, never above that of the starting point, zero at the
truth, inside the bounds where the fit is bounded, and the truth is found where the data determine it.
"""
import importlib

import numpy as np

from harness import gen, ref
from harness.env import priv, rng_for

RULE = "distinct (component, parameter mode, what was judged) combinations"
ASSUMPTIONS = [
    "recovery from a distant start is required of the t_peak fitter only: the others minimise clipped relations, with local minima, or losses scaled below the optimizer's tolerance",
]
PK = "diffmah.diffmahpop_kernels."


def mse(a, b):
    return float(np.mean((np.asarray(a, "f8") - np.asarray(b, "f8")) ** 2))


def central_difference(f, x, step):
    g, g2 = np.zeros(len(x)), np.zeros(len(x))
    for i in range(len(x)):
        e = np.zeros(len(x))
        e[i] = step
        g[i] = (f(x + e) - f(x - e)) / (2 * step)
        g2[i] = (f(x + 2 * e) - f(x - 2 * e)) / (4 * step)
    return g, g2


class View:
    def __init__(self, names, values):
        self.__dict__.update(zip(names, np.asarray(values, "f8")))

    def __getitem__(self, k):
        return self.__dict__[k]


def lossjudge(mon, got, want, scale, what, /, **w):
    """scale: typical magnitude of what is differenced; its float32 rounding enters the loss"""
    eps = 3e-6 * scale
    mon.check_close(float(got), want, 1e-3 * abs(want) + 2 * eps * np.sqrt(abs(want)) + eps**2 + 1e-12, what, **w)


def gradjudge(mon, g, want, want2, scale, what, /, **w):
    g, want, want2 = [np.asarray(x, "f8") for x in (g, want, want2)]
    tol = 5e-3 * np.abs(want) + 3e-3 * np.abs(want).max() + 3 * np.abs(want - want2) + 1e-7 * scale**2
    mon.check_close(g, want, tol, what, **w)


# ------------------------------------------------------------------ losses of unbounded parameters (logtc, early index)
def components():
    out = []
    for branch, name in (("early", "logtc_early"), ("late", "logtc_late")):
        m = importlib.import_module(PK + name)
        out.append((name, m, m.Logtc_Params, m.LOGTC_PBOUNDS, m.get_unbounded_logtc_params, m.get_bounded_logtc_params,
                    (lambda b: lambda p, lgm, to, tp: ref.pred_logtc(p, lgm, to, tp, b))(branch), 1.0))
    for branch, name in (("early", "early_index_alpha"), ("late", "early_index_beta"), ("pop", "early_index_pop")):
        m = importlib.import_module(PK + name)
        out.append((name, m, m.EarlyIndex_Params, m.EARLY_INDEX_PBOUNDS, m.get_unbounded_early_index_params, m.get_bounded_early_index_params,
                    (lambda b: lambda p, lgm, to, tp: ref.pred_early_index(p, lgm, to, tp, b))(branch), 3.0))
    return out


def uparam_losses(mon, rng, nrep):
    from diffmah.fitting_helpers.bfgs_wrapper import bfgs_adam_fallback

    for name, m, Params, bounds, unb, bnd, pred, scale in components():
        vg = priv(m, "loss_and_grads_kern")
        if vg is None:
            mon.skip(f"{name}: no loss under its public name")
            continue
        lo, hi = gen.pop_bounds(bounds)
        ubound = lambda u: ref.bound(np.asarray(u, "f8"), lo, hi)
        for k in range(nrep):
            mode = ["uniform", "mixed"][k % 2]
            truth = gen.in_bounds_params(rng, Params, bounds, mode)
            n = 40
            lgm = np.asarray(rng.uniform(11, 15, n), "f4")
            t_obs = np.asarray(rng.uniform(2, 13.8, n), "f4")
            t_peak = np.asarray(rng.uniform(0.1, 1, n) * np.where(rng.random(n) < 0.5, t_obs, 13.8), "f4")
            F = lambda u, y: mse(pred(View(Params._fields, ubound(u)), lgm.astype("f8"), t_obs.astype("f8"), t_peak.astype("f8")), y)
            ut = np.array([float(v) for v in unb(truth)])
            y = np.asarray(pred(View(Params._fields, ubound(ut)), lgm.astype("f8"), t_obs.astype("f8"), t_peak.astype("f8")), "f4")
            data = (lgm, t_obs, t_peak, y)
            w = dict(component=name, truth=[float(v) for v in truth])
            mon.context = [dict(component=name, truth=w["truth"])]
            z, g = vg(ut, data)
            mon.check(0 <= float(z) <= (1e-5 * scale) ** 2, "component loss vanishes at the parameters that made the data", got=float(z), **w)
            u = np.array([float(v) for v in unb(gen.in_bounds_params(rng, Params, bounds, "uniform"))])
            l, g = vg(u, data)
            want = F(u, y)
            lossjudge(mon, l, want, scale, "component loss is the mean squared difference from the relation", **w)
            a, b = central_difference(lambda x: F(x, y), u, 1e-3)
            gradjudge(mon, g, a, b, scale, "gradient of the component loss", u=u.tolist(), **w)
            l2, g2 = vg(type(unb(truth))(*u), data)
            mon.check_close(float(l2), float(l), 1e-6 * abs(float(l)), "component loss is the same for a named tuple of parameters", **w)
            # an unperturbed element moved: each datum has the same weight
            i = int(rng.integers(n))
            y2 = y.copy()
            y2[i] += np.float32(0.5 * scale)
            lossjudge(mon, vg(ut, (lgm, t_obs, t_peak, y2))[0], 0.25 * scale**2 / n, scale, "each datum has the same weight in the component loss", **w)
            # data that no parameters describe
            far = np.asarray(y + np.float32(30 * scale), "f4")
            lossjudge(mon, vg(u, (lgm, t_obs, t_peak, far))[0], F(u, far), 31 * scale, "component loss is the mean squared difference from the relation", shift=30 * scale, **w)
            mon.case(name, mode, "loss")
            mon.seen("component losses judged", 5)
            if k < max(1, nrep // 3):
                p, loss, ok, code = bfgs_adam_fallback(vg, type(unb(truth))(*u), data, 200, 1)
                p = np.asarray(p, "f8")
                mon.check(np.isfinite(p), "component fit returns finite parameters", **w)
                lossjudge(mon, loss, F(p, y), scale, "reported loss is the component's loss at the reported parameters", **w)
                mon.check(float(loss) <= want * (1 + 1e-4) + 1e-9, "component fit is no worse than its starting point", got=float(loss), start=want, **w)
                b = np.array([float(v) for v in bnd(type(unb(truth))(*p))])
                mon.check((b >= np.float32(lo)) & (b <= np.float32(hi)), "fitted component parameters are in bounds", got=b.tolist(), **w)
                mon.seen("component fits judged")
                mon.case(name, mode, "fit")


# ------------------------------------------------------------------ logm0 coefficients
def many_sets(mon, rng, name, vg, Params, B, pred):
    """Any number of data sets, of any lengths: each enters the global loss once."""
    truth, other = [np.array([float(np.float32(v)) for v in gen.in_bounds_params(rng, Params, B, "uniform")]) for _ in range(2)]
    data = []
    for i, t_obs in enumerate(rng.uniform(2, 13.8, 23)):
        tp = np.asarray(np.linspace(0.2, 1 + 0.2 * (i % 2), 5 + 2 * (i % 3)) * t_obs, "f4")
        data.append((np.float32(t_obs), tp, np.asarray(pred(truth, np.float32(t_obs), tp), "f4")))
    parts = [mse(pred(other, to, tp), y) for to, tp, y in data]
    scale = max(1.0, max(np.abs(y).max() for _, _, y in data))
    lossjudge(mon, vg(Params(*other), data)[0], sum(parts), scale, "global loss is the sum over all of its data sets", component=name, at=other.tolist(), truth=truth.tolist())
    # data that no parameters describe: the loss keeps measuring how far away they are
    far = [(to, tp, np.asarray(y + 40, "f4")) for to, tp, y in data]
    want = sum(mse(pred(other, to, tp), y) for to, tp, y in far)
    lossjudge(mon, vg(Params(*other), far)[0], want, scale + 40, "global loss is the sum over all of its data sets", component=name, at=other.tolist(), shift=40)
    mon.seen("component losses judged", 2)
    mon.case(name, "many data sets")


def coefficient_fits(mon, rng, nrep):
    import jax

    for sub, sat in (("bimod_logm0_kernels", False), ("bimod_logm0_sats", True)):
        for c in ("c0", "c1"):
            for branch in ("early", "late"):
                m = importlib.import_module(f"{PK}{sub}.logm0_{c}_{branch}")
                Params, B, D = getattr(m, f"LGM0Pop_{c.upper()}_Params"), getattr(m, f"LGM0POP_{c.upper()}_BOUNDS"), getattr(m, f"DEFAULT_LGM0POP_{c.upper()}_PARAMS")
                fit = getattr(m, f"fit_global_{c}_model")
                rp = {"c0": ref.pred_c0, "c1": ref.pred_c1}[c]
                pred = lambda p, to, tp: rp(View(Params._fields, p), np.asarray(to, "f8"), np.asarray(tp, "f8"), branch, sat)
                vg, lo_hi = priv(m, "global_loss_and_grads_kern"), gen.pop_bounds(B)
                name = f"{sub} {c} {branch}"
                if vg is not None:
                    many_sets(mon, rng, name, vg, Params, B, pred)
                for k in range(nrep):
                    truth = np.array([float(v) for v in gen.in_bounds_params(rng, Params, B, "uniform")])
                    nset = 4
                    data = []
                    for t_obs in rng.uniform(2, 13.8, nset):
                        tp = np.asarray(np.linspace(0.2, 1, 15) * t_obs, "f4")
                        data.append((np.float32(t_obs), tp, np.asarray(pred(truth, np.float32(t_obs), tp), "f4")))
                    F = lambda p: sum(mse(pred(p, to, tp), y) for to, tp, y in data)
                    scale = max(1.0, max(np.abs(y).max() for _, _, y in data))
                    w = dict(component=name, truth=truth.tolist())
                    mon.context = [w]
                    start = np.array([float(np.float32(v)) for v in gen.in_bounds_params(rng, Params, B, "uniform")])
                    if vg is not None:
                        l, g = vg(Params(*start), data)
                        lossjudge(mon, l, F(start), scale, "global loss is the sum of the mean squared differences of its data sets", **w)
                        a, b = central_difference(F, start, 1e-5)
                        b2 = central_difference(F, start, 1e-4)[0]
                        gradjudge(mon, np.array([float(v) for v in g]), a, b2, scale, "gradient of the global loss", start=start.tolist(), **w)
                        z = float(vg(Params(*truth), data)[0])
                        mon.check(0 <= z <= (2e-5 * scale) ** 2, "global loss vanishes at the parameters that made the data", got=z, **w)
                        mon.seen("component losses judged", 2)
                        mon.case(name, "loss")
                    for what, p0 in (("default start", None), ("distant start", start), ("at the truth", truth)):
                        if what == "distant start" and k % 2:
                            continue
                        r = fit(data) if p0 is None else fit(data, p_init=Params(*p0))
                        mon.check(len(r) == 4, "fit returns parameters, loss, status and code")
                        p, loss, ok, code = r
                        p = np.asarray(p, "f8")
                        p0 = np.array([float(np.float32(v)) for v in D]) if p0 is None else p0
                        mon.check(np.isfinite(p) & (p.shape == p0.shape), "fit returns finite parameters", start=what, **w)
                        # steep in some parameters: allow for their rounding to single precision
                        lf = [F(np.asarray(p, "f4").astype("f8")), F(p)]
                        band = 2e-3 * max(lf) + 2 * abs(lf[0] - lf[1]) + 1e-5 * scale * np.sqrt(max(lf)) + (1e-5 * scale) ** 2
                        mon.check(min(lf) - band <= float(loss) <= max(lf) + band, "reported loss is the loss at the reported parameters", got=float(loss), want=lf[1], start=what, **w)
                        l0 = F(p0)
                        mon.check(float(loss) <= l0 * (1 + 1e-3) + (1e-5 * scale) ** 2, "fit is no worse than its starting point", got=float(loss), want=l0, start=what, **w)
                        mon.check(code in (0, 1), "the code used is reported", got=code)
                        mon.check(hasattr(p, "shape") and all(hasattr(r[0], f) for f in Params._fields), "fitted parameters are named", got=type(r[0]).__name__)
                        mon.seen("coefficient fits judged")
                        mon.seen("coefficient fits that improved tenfold", int(float(loss) < 0.1 * l0))
                        mon.case(name, what)


# ------------------------------------------------------------------ t_peak densities
def density_fits(mon, rng, nrep):
    from diffmah.diffmahpop_kernels.t_peak_kernels import tp_pdf_cens as tpc
    from diffmah.diffmahpop_kernels.t_peak_kernels import utp_pdf_kernels as u

    lo, hi = gen.pop_bounds(u.UTP_PBOUNDS)
    names = u.UTP_Params._fields
    for k in range(nrep):
        loc, sc = rng.uniform(0.15, 0.95), 10 ** rng.uniform(-1.2, -0.1)
        x = np.asarray(np.linspace(0.105, 0.995, 60), "f4")
        y = np.asarray(ref.tn_pdf(x.astype("f8"), loc, sc), "f4")
        top = float(y.max())
        w = dict(loc=loc, scale=sc)
        mon.context = [w]
        R = lambda p, x=x, y=y: mse(ref.tn_pdf(x.astype("f8"), *[float(v) for v in p]), y)
        p, loss, ok, code = u.t_peak_fitter(x, y)
        v = np.array([float(a) for a in p])
        mon.check((v >= np.float32(lo)) & (v <= np.float32(hi)), "fitted t_peak density is in bounds", got=v.tolist(), **w)
        mon.check(p._fields == names, "fitted t_peak density is named", got=p._fields)
        sens = abs(R(v * (1 + 1e-6)) - R(v))
        mon.check_close(float(loss), R(v), 2e-3 * R(v) + 2 * sens + (2e-5 * top) ** 2, "reported loss is the loss at the reported density", **w)
        err = np.abs(ref.tn_pdf(x.astype("f8"), *v) - y).max() / top
        mon.check(err < 0.03, "the t_peak fitter reproduces a noiseless density of the family", got=float(err), fitted=v.tolist(), **w)
        mon.check(bool(ok) and code in (0, 1), "the t_peak fitter terminates", ok=bool(ok), code=code, **w)
        mon.seen("t_peak fits judged")
        mon.case("t_peak_fitter", round(np.log10(sc), 1))
        # centrals: density of t_peak rather than of t_peak / t_0
        t_0 = float(rng.uniform(9, 14.5))
        xt, yt = np.asarray(x * np.float32(t_0), "f4"), np.asarray(y / np.float32(t_0), "f4")
        Rc = lambda p: mse(ref.tn_pdf(xt.astype("f8") / t_0, *[float(v) for v in p]) / t_0, yt)
        d0 = [float(v) for v in u.DEFAULT_UTP_PARAMS]
        truth_u = u.get_unbounded_utp_params(u.UTP_Params(np.float32(loc), np.float32(sc)))
        for what, init, start in (("default start", None, d0), ("at the truth", truth_u, [loc, sc])):
            r = tpc.t_peak_cens_fitter(xt, yt, t_0) if init is None else tpc.t_peak_cens_fitter(xt, yt, t_0, u_p_init=init, nstep=30, n_warmup=0)
            p, loss, ok, code = r
            v = np.array([float(a) for a in p])
            mon.check((v >= np.float32(lo)) & (v <= np.float32(hi)), "fitted density of centrals is in bounds", got=v.tolist(), start=what, **w)
            sens = abs(Rc(v * (1 + 1e-6)) - Rc(v))
            mon.check_close(float(loss), Rc(v), 2e-3 * Rc(v) + 2 * sens + (2e-5 * top / t_0) ** 2, "reported loss is the loss of centrals at the reported density", start=what, t_0=t_0, **w)
            mon.check(float(loss) <= Rc(start) * (1 + 1e-3) + (3e-5 * top / t_0) ** 2, "fit of centrals is no worse than its starting point", got=float(loss), want=Rc(start), start=what, **w)
            if what == "at the truth":
                err = np.abs(ref.tn_pdf(x.astype("f8"), *v) - y).max() / top
                mon.check(err < 0.02, "fit of centrals stays at the truth", got=float(err), **w)
            elif 0.1 < sc < 0.25 and 0.35 < loc < 0.7:
                # well inside the range, where the data determine both parameters from the default start
                err = np.abs(ref.tn_pdf(x.astype("f8"), *v) - y).max() / top
                mon.check(err < 0.1, "fit of centrals reproduces a well-determined density", got=float(err), **w)
                mon.seen("well-determined densities of centrals")
            mon.seen("t_peak fits judged")
            mon.case("t_peak_cens_fitter", what)
        # the losses themselves
        for mod, data, RR, nm in ((u, (x, y), R, "t_peak"), (tpc, (xt, yt, t_0), Rc, "t_peak of centrals")):
            vg = priv(mod, "loss_and_grads_kern")
            if vg is None:
                continue
            b = np.array([rng.uniform(0.3, 0.8), rng.uniform(0.15, 0.6)])
            uu = np.array([float(z) for z in u.get_unbounded_utp_params(u.UTP_Params(*b))])
            f = lambda z: RR(ref.bound(z, lo, hi))
            l, g = vg(uu, data)
            sc_ = top if mod is u else top / t_0
            lossjudge(mon, l, f(uu), sc_ * 3, f"{nm}: loss is the mean squared difference of densities", at=b.tolist(), **w)
            a, a2 = central_difference(f, uu, 1e-3)
            gradjudge(mon, g, a, a2, sc_, f"{nm}: gradient of the loss", at=b.tolist(), **w)
            mon.seen("component losses judged")
            mon.case(nm, "loss")


def cdf_losses(mon, rng, nrep):
    from diffmah.diffmahpop_kernels.t_peak_kernels import tp_pdf_cens_flex as tf

    names = tf.TPCens_Params._fields
    lo, hi = gen.pop_bounds(tf.TPCENS_PBOUNDS)
    vgm, vg1 = priv(tf, "loss_and_grad_multimass"), priv(tf, "loss_and_grad")
    for k in range(nrep):
        nb, nt = 5, 20
        truth = np.array([float(v) for v in gen.in_bounds_params(rng, tf.TPCens_Params, tf.TPCENS_PBOUNDS, "uniform")])
        other = np.array([float(v) for v in gen.in_bounds_params(rng, tf.TPCens_Params, tf.TPCENS_PBOUNDS, "uniform")])
        utp = np.asarray(np.sort(rng.uniform(0, 1, (nb, nt)), axis=1), "f4")
        lgm, t_obs = np.asarray(rng.uniform(11, 15, nb), "f4"), np.asarray(rng.uniform(2, 13.8, nb), "f4")
        model = lambda p: np.array([ref.cen_cdf(View(names, p), utp[i].astype("f8"), float(lgm[i]), float(t_obs[i])) for i in range(nb)])
        y = np.asarray(model(truth), "f4")
        w = dict(truth=truth.tolist(), at=other.tolist())
        mon.context = [w]
        z = float(tf.loss_multimass(tf.TPCens_Params(*truth), (utp, y, lgm, t_obs)))
        mon.check(0 <= z < 1e-5, "loss of the t_peak fractions vanishes at the truth", got=z, **w)
        f = lambda p: float(np.mean(np.abs(model(p) - y)))
        l = tf.loss_multimass(tf.TPCens_Params(*other), (utp, y, lgm, t_obs))
        mon.check_close(float(l), f(other), 1e-4 * f(other) + 1e-6, "loss of the t_peak fractions is their mean absolute difference", **w)
        if vgm is not None:
            l2, g = vgm(tf.TPCens_Params(*other), (utp, y, lgm, t_obs))
            a, a2 = central_difference(f, other, 1e-5)
            b2 = central_difference(f, other, 1e-4)[0]
            gradjudge(mon, [float(v) for v in g], a, b2, 1.0, "gradient of the loss of the t_peak fractions", **w)
            mon.check_close(float(l2), float(l), 1e-6, "value returned with the gradient is the loss", **w)
        if vg1 is not None:
            x0 = rng.uniform(0.4, 1.6)
            l, g = vg1((np.float32(x0),), (utp[0], y[0]))
            f1 = lambda q: mse(ref.logistic(5.0 * (utp[0].astype("f8") - q[0])), y[0])
            lossjudge(mon, l, f1([float(np.float32(x0))]), 1.0, "single-mass loss is the mean squared difference", x0=x0, **w)
            a, a2 = central_difference(f1, np.array([x0]), 1e-4)
            gradjudge(mon, np.array([float(g[0])]), a, a2, 1.0, "gradient of the single-mass loss", x0=x0, **w)
        mon.seen("component losses judged", 3)
        mon.case("t_peak fractions", k % 7)


def body(mon):
    quick = mon.tier == "quick"
    uparam_losses(mon, rng_for(mon, "u"), 4 if quick else 60)
    coefficient_fits(mon, rng_for(mon, "c"), 2 if quick else 15)
    density_fits(mon, rng_for(mon, "d"), 6 if quick else 80)
    cdf_losses(mon, rng_for(mon, "f"), 6 if quick else 100)
    mon.context = []
    mon.require("component losses judged", 50)
    mon.require("coefficient fits judged", 20)
    mon.require("component fits judged", 5)
    mon.require("t_peak fits judged", 10)
