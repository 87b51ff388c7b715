"""Validity monitor of every generated halo: finite, bounded, self-consistent, one branch per halo, repeatable.

Judges each row of every population the generators return (parameters of both branches, the selection, mass
histories) over wandering population parameters, masses, times, ages, keys and sizes; a separate run with
nearly scatter-free, far-apart branches reads off the branch of each field of each halo.
"""
import numpy as np

from harness import gen, ref
from harness.env import rng_for

RULE = "distinct (generator, entry point, parameter mode, t_peak given or drawn, population size) combinations"


def apis():
    from diffmah.diffmahpop_kernels import mc_bimod_cens as mc, mc_bimod_sats as ms

    return (
        ("cens", mc.mc_diffmah_cenpop, mc.mc_cenpop, mc.mc_diffmah_params_singlecen),
        ("sats", ms.mc_diffmah_satpop, ms.mc_satpop, ms.mc_diffmah_params_singlesat),
    )


def valid_params(mon, q, what, /, **w):
    a = {k: np.asarray(getattr(q, k), "f8") for k in ref.MAH_FIELDS}
    mon.check(tuple(q._fields) == ref.MAH_FIELDS, what + ": fields", got=q._fields)
    for k, v in a.items():
        lo, hi = ref.f32(ref.MAH_BOUNDS[k])
        mon.check(np.isfinite(v), f"{what}: finite {k}", n=v.size, values=v, **w)
        mon.check((v >= lo) & (v <= hi), f"{what}: {k} inside its bounds", n=v.size, values=v, **w)
    mon.check(a["late_index"] <= a["early_index"], f"{what}: late index not above early index", n=v.size, early=a["early_index"], late=a["late_index"], **w)
    mon.seen("halos validated", v.size)
    return a


def tp_range(mon, kind, tp, tobs, t0, what, /, **w):
    if kind == "cens":
        ok = (tp >= 0.05 * t0 * (1 - 3e-5)) & (tp <= t0 * (1 + 3e-5))
        mon.seen("t_peak at the floor", int(np.sum(tp < 0.0501 * t0)))
    else:
        ok = (tp <= tobs * (1 + 3e-5)) & (tp > 0)
        mon.seen("satellite peaks within 1 percent of t_obs", int(np.sum(tp > 0.99 * tobs)))
    mon.check(ok, f"{what}: t_peak in its range", n=np.size(tp), t_peak=tp, t0=t0, **w)


def history_ok(mon, pop, tarr, what, /, **w):
    lgt0 = w["lgt0"]
    P = [np.asarray(getattr(pop.mah_params, k), "f8")[:, None] for k in ref.MAH_FIELDS]
    T = ref.f32(tarr)[None, :]
    t0 = 10 ** float(lgt0)
    lm, dm = np.asarray(pop.log_mah, "f8"), np.asarray(pop.dmhdt, "f8")
    want = ref.log_mah(P, T, float(lgt0))
    mon.check_close(lm, want, np.where(T > t0, 4e-5, 3e-5) + 0 * want, f"{what}: log mass is the individual-halo model at its parameters", t=tarr, **w)
    wd, scale = ref.dmhdt(P, T, float(lgt0))
    at = np.abs(T - P[4]) <= 4e-6 * P[4]
    mon.check_close(np.where(at, 0, dm), np.where(at, 0, wd), 3e-4 * scale + 1e-30, f"{what}: accretion rate is the individual-halo model at its parameters", t=tarr, **w)
    mon.seen("histories compared", lm.shape[0])


def same(a, b):
    import jax

    la, lb = jax.tree_util.tree_leaves(a), jax.tree_util.tree_leaves(b)
    return len(la) == len(lb) and all(np.array_equal(np.asarray(x), np.asarray(y)) for x, y in zip(la, lb))


def far_apart(rng, flip):
    """Population parameters with nearly no scatter and branches that differ in every field but late index/t_peak"""
    from diffmah.diffmahpop_kernels import bimod_censat_params as bcp

    d = bcp.DEFAULT_DIFFMAHPOP_PARAMS._asdict()
    b = gen.all_bounds()
    for k in d:
        if k.startswith("std_u_"):
            d[k] = 0.0101
        if k.startswith("rho_"):
            d[k] = 0.0
        if k.startswith("fec_lgm"):
            d[k] = 0.5

    def put(k, f):
        lo, hi = map(float, b[k])
        d[k] = lo + f * (hi - lo)

    hi_, lo_ = (0.98, 0.02) if not flip else (0.02, 0.98)
    for br, f in (("early", hi_), ("late", lo_)):
        for s in ("", "_sats"):
            put(f"lgm0pop_c0_clip_c0_{br}{s}", f)
            put(f"lgm0pop_c0_ytp_{br}{s}", f)
            put(f"lgm0pop_c0_clip_c1_{br}{s}", f)
        put(f"logtc_lgm_c0_tp_ytp_tobs_c0_{br}", f)
    for ab, f in (("alpha", hi_), ("beta", lo_)):
        for k in ("early_index_ylo_ylo", "early_index_ylo_yhi", "early_index_yhi_ylo", "early_index_yhi_yhi", "late_index_ylo", "late_index_yhi"):
            put(f"{k}_{ab}", f)
    return bcp.DiffmahPop_Params(**{k: np.float32(v) for k, v in d.items()})


def coselection(mon, rng, nrep):
    import jax.random as jran

    for rep in range(nrep):
        for flip in (False, True):
            params = far_apart(rng, flip)
            p = ref.P(params)
            n = 60  # the size compiled already
            lgm = np.asarray(rng.uniform(11.5, 14.5, n), "f4")
            t_obs = np.asarray(rng.uniform(3.0, 13.5, n), "f4")
            lgt0 = np.float32(np.log10(13.8))
            tarr = np.linspace(0.5, 13.8, 20).astype("f4")
            for kind, cenpop, withmah, _ in apis():
                sat = kind == "sats"
                key = jran.PRNGKey(int(rng.integers(2**31)))
                for label, pop in (("params", cenpop(params, lgm, t_obs, key, lgt0)), ("histories", withmah(params, tarr, lgm, t_obs, key, lgt0))):
                    q = pop.mah_params
                    tp = np.asarray(q.t_peak, "f8")
                    a = (lgm.astype("f8"), t_obs.astype("f8"), tp)
                    preds = {
                        "logm0": [ref.pred_logm0(p, *a, br, sat) for br in ("early", "late")],
                        "logtc": [ref.pred_logtc(p, *a, br) for br in ("early", "late")],
                        "early_index": [ref.pred_early_index(p, *a, br) for br in ("early", "late")],
                        "late_index": [ref.pred_late_index(p, a[0], br) for br in ("early", "late")],
                    }
                    votes = []
                    # scatter in u is 0.0101: at most 7 sigma times the slope of the bounding
                    width = {"logm0": 0.5 * 17 / 40 * 0.075, "logtc": 2 / 40 * 0.075, "early_index": 10 / 40 * 0.075 + 0.02, "late_index": 5 / 40 * 0.075}
                    for k, (e, l) in preds.items():
                        x = np.asarray(getattr(q, k), "f8")
                        w = 2.2 * width[k]
                        clear = np.abs(e - l) > 2.5 * w
                        near_e, near_l = np.abs(x - e) < w, np.abs(x - l) < w
                        mon.check((near_e | near_l)[clear], f"{k} is one of the two branch means when there is no scatter", n=int(clear.sum()), kind=kind, entry=label,
                                  got=x[clear][:5], early=e[clear][:5], late=l[clear][:5], widths=w)
                        votes.append(np.where(clear, np.where(near_e, 1, -1), 0))
                    votes = np.array(votes)
                    mixed = (votes.max(0) == 1) & (votes.min(0) == -1)
                    mon.check(~mixed, "each halo is entirely of one branch", n=n, kind=kind, entry=label, n_mixed=int(mixed.sum()), votes=votes[:, mixed][:, :5])
                    multi = (votes != 0).sum(0) >= 2
                    mon.seen("halos with at least two branch votes", int(multi.sum()))
                    mon.seen("early halos", int((votes.max(0) == 1).sum()))
                    mon.seen("late halos", int((votes.min(0) == -1).sum()))
                    if label == "params":
                        is_e = np.asarray(pop.mc_early).astype(bool)
                        wrong = ((votes == 1).any(0) & ~is_e) | ((votes == -1).any(0) & is_e)
                        mon.check(~wrong, "the branch is the one mc_early says", n=n, kind=kind)
                    mon.case("coselection", kind, label, flip)


def body(mon):
    import jax.random as jran

    from diffmah.diffmahpop_kernels import param_utils as pu

    quick = mon.tier == "quick"
    rng = rng_for(mon, "pop")
    nrep = 16 if quick else 300
    sizes = [60, 60, 1, 60, 60] if quick else [1, 7, 150, 2, 40]
    for rep in range(nrep):
        if rep > 4 and not mon.more():
            break
        params, mode = gen.pop_params(rng)
        n = sizes[rep % 5]
        t0 = float(rng.choice([13.8, 13.47, 13.79, 8.0, 19.0]))
        lgt0 = np.float32(np.log10(t0))
        lgm = np.asarray(rng.uniform(9, 16, n), "f4")
        t_obs = np.asarray(rng.uniform(0.56, t0, n), "f4")
        if rep % 4 == 1:
            t_obs = np.full(n, t0, "f4")
        key = jran.PRNGKey(int(rng.integers(2**31)))
        tarr = gen.times(rng, 20 if quick else [12, 30][rep % 2], (), t0, hi=min(20.0, t0 * 1.05), sort=True)
        tarr[: 2] = [1e-3, 5e-3]  # long before any halo forms
        w = dict(mode=mode, size=n, lgm=lgm, t_obs=t_obs, lgt0=lgt0, key=np.asarray(key))
        mon.context = [dict(rep=rep, params=params._asdict())]
        for kind, cenpop, withmah, single in apis():
            for given in (False, True):
                tp_in = None
                if given:
                    tp_in = np.asarray(rng.uniform(0.06, 0.999, n) * (t0 if kind == "cens" or rep % 3 == 1 else t_obs), "f4")
                    tp_in = np.maximum(tp_in, np.float32(0.06))
                    if rep % 2:
                        # the caller's peak may lie in the future: any age below the upper bound of 20 Gyr
                        tp_in[:: 5] = rng.uniform(t0, 19.8, tp_in[::5].size)
                    mon.seen("supplied peak times after t0", int(np.sum(tp_in > t0)))
                    mon.seen("supplied peak times after t_obs", int(np.sum(tp_in > t_obs)))
                pop = cenpop(params, lgm, t_obs, key, lgt0, **({} if tp_in is None else dict(t_peak=tp_in)))
                a = valid_params(mon, pop.mah_params, f"{kind} population", **w)
                e = valid_params(mon, pop.mah_params_early, f"{kind} early branch", **w)
                l = valid_params(mon, pop.mah_params_late, f"{kind} late branch", **w)
                sel = np.asarray(pop.mc_early).astype(bool)
                mon.check(sel.shape == (n,), "selection has one entry per halo", got=sel.shape)
                for k in ref.MAH_FIELDS:
                    mon.check(a[k] == np.where(sel, e[k], l[k]), f"{kind}: {k} is the selected branch's", n=n, sel=sel, got=a[k], early=e[k], late=l[k])
                    mon.check(a[k].shape == (n,), f"{kind}: shape of {k}", got=a[k].shape)
                mon.check_close(e["t_peak"], l["t_peak"], 2e-5 * l["t_peak"], f"{kind}: branches share t_peak", **w)
                if given:
                    # one logistic round trip in single precision over (0.05, 20)
                    mon.check_close(a["t_peak"], tp_in.astype("f8"), 3e-5, f"{kind}: t_peak is the caller's", **w)
                    mon.check_close(e["t_peak"], tp_in.astype("f8"), 3e-5, f"{kind}: early t_peak is the caller's", **w)
                    mon.check_close(l["t_peak"], tp_in.astype("f8"), 3e-5, f"{kind}: late t_peak is the caller's", **w)
                else:
                    for nm, x in (("population", a), ("early", e), ("late", l)):
                        tp_range(mon, kind, x["t_peak"], t_obs.astype("f8"), t0, f"{kind} {nm}", **w)
                fe = np.asarray(pop.frac_early_cens, "f8")
                mon.check_close(fe, ref.frac_early(ref.P(params), lgm.astype("f8"), t_obs.astype("f8")), 1e-5, f"{kind}: early fraction is the predicted one", **w)
                mon.seen("early halos", int(sel.sum()))
                mon.seen("late halos", int((~sel).sum()))
                mon.case(kind, "params", mode, given, n)
                if rep % 4 == 0:
                    again = cenpop(params, lgm, t_obs, key, lgt0, **({} if tp_in is None else dict(t_peak=tp_in)))
                    mon.check(same(pop, again), f"{kind}: same key, same population", **w)
                    mon.seen("repeated draws")
                    if n > 2:
                        other = cenpop(params, lgm, t_obs, jran.split(key)[0], lgt0, **({} if tp_in is None else dict(t_peak=tp_in)))
                        x, y = np.asarray(other.mah_params.logm0), np.asarray(pop.mah_params.logm0)
                        free = (y > 0.01) & (y < 16.99)
                        if free.sum() > 2:
                            mon.check(np.mean((x == y)[free]) < 0.5, f"{kind}: another key, another population", **w)
                picked = pu.mc_select_diffmah_params(pop.mah_params_early, pop.mah_params_late, pop.mc_early)
                mon.check(same(tuple(picked), tuple(pop.mah_params)), f"{kind}: mc_select_diffmah_params reproduces the selection")
            pop = withmah(params, tarr, lgm, t_obs, key, lgt0)
            a = valid_params(mon, pop.mah_params, f"{kind} population with histories", **w)
            mon.check(np.asarray(pop.log_mah).shape == (n, tarr.size) and np.asarray(pop.dmhdt).shape == (n, tarr.size), "history shapes")
            tp_range(mon, kind, a["t_peak"], t_obs.astype("f8"), t0, f"{kind} with histories", **w)
            history_ok(mon, pop, tarr, kind, **w)
            mon.case(kind, "histories", mode, n)
            if rep % 4 == 2:
                mon.check(same(pop, withmah(params, tarr, lgm, t_obs, key, lgt0)), f"{kind}: same key, same histories", **w)
                mon.seen("repeated draws")
            if rep < 4 or not quick:
                i = int(rng.integers(n))
                pe, pl, fe = single(params, lgm[i], t_obs[i], key, lgt0)
                e = valid_params(mon, pe, f"{kind} single early", **w)
                l = valid_params(mon, pl, f"{kind} single late", **w)
                mon.check_close(e["t_peak"], l["t_peak"], 2e-5 * float(l["t_peak"]), f"{kind} single: branches share t_peak")
                tp_range(mon, kind, e["t_peak"], float(t_obs[i]), t0, f"{kind} single", **w)
                mon.check_close(float(fe), ref.frac_early(ref.P(params), float(lgm[i]), float(t_obs[i])), 1e-5, f"{kind} single: early fraction")
                mon.check(same((pe, pl, fe), single(params, lgm[i], t_obs[i], key, lgt0)), f"{kind} single: same key, same halo")
                mon.case(kind, "single", mode)
    mon.context = []
    coselection(mon, rng_for(mon, "cosel"), 4 if quick else 100)
    select_utility(mon, rng_for(mon, "select"), 20)
    mon.require("halos validated", 1000)
    mon.require("early halos", 50)
    mon.require("late halos", 50)
    mon.require("halos with at least two branch votes", 100)


def select_utility(mon, rng, nrep):
    from diffmah.defaults import DiffmahParams
    from diffmah.diffmahpop_kernels import param_utils as pu

    for rep in range(nrep):
        n = int(rng.integers(1, 50))
        a = DiffmahParams(*gen.halos(rng, n))
        b = DiffmahParams(*gen.halos(rng, n))
        sel = rng.random(n) < rng.random()
        sel = [sel, sel.astype(int), sel.astype("f4")][rep % 3]
        c = pu.mc_select_diffmah_params(a, b, sel)
        mon.check(type(c).__name__ == "DiffmahParams" and tuple(c._fields) == ref.MAH_FIELDS, "type of the selected params")
        for k in ref.MAH_FIELDS:
            mon.check(np.asarray(getattr(c, k)) == np.where(sel.astype(bool), getattr(a, k), getattr(b, k)), "selection: 1 picks the first, 0 the second", n=n, field=k, sel=sel)
        mon.seen("selections")
