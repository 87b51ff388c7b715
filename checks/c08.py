"""Monitor of the skip decision and of the fill values."""
import numpy as np

from harness import fits, gen, ref
from harness.env import rng_for

RULE = "distinct (number of non-trivial points, forced, kind of history, options) decisions judged"
ASSUMPTIONS = ["histories with a point within single-precision rounding of a threshold are not judged"]


def make(rng, t, want):
    """History with exactly `want` eligible points strictly below the final mass."""
    n = len(t)
    lo_t = np.flatnonzero(t >= 1.0)
    lg = np.full(n, 12.0)
    k = min(want, len(lo_t) - 1)
    vals = np.sort(rng.uniform(10.0, 11.9, k))
    lg[lo_t[:k]] = vals
    lg[: lo_t[0]] = 9.0  # before t_fit_min: never eligible
    form = rng.choice(["asis", "zeros", "deep"])
    m = 10**lg
    if form != "asis" and k < len(lo_t) - 1:
        # ineligible junk in between: zero or more than 2.5 dex below
        j = lo_t[k : k + 2]
        j = j[j < n - 1]
        m[j] = 0.0 if form == "zeros" else 10**9.0
    return m, k, form


def judge(mon, t, m, kw, tag, force):
    W = fits.describe(t, m, kw)
    res = fits.run(t, m, force_skip_fit=force, **kw)
    idx = fits.judge_target(mon, res.loss_data, t, m, kw, W)
    et, el, _, amb = ref.target(t, m, **{k: v for k, v in kw.items() if k in ("lgm_min", "dlogm_cut", "t_fit_min")})
    npts = None if amb else ref.n_nontrivial(el, m.dtype)
    if npts is None:
        mon.seen("rounding-ambiguous (not judged)")
        return
    want = bool(force or npts < ref.NPTS_MIN)
    mon.check(bool(res.skip_fit) == want, "fit skipped exactly when fewer than 3 non-trivial points or forced", got=bool(res.skip_fit), want=want, npts=npts, force=force, **W)
    p = fits.params(res)
    if want:
        mon.check(np.all(p == ref.NOFIT), "skipped fit reports -99 for every parameter", p=p, **W)
        mon.check(float(res.loss_best) == ref.NOFIT, "skipped fit reports loss -99", loss=float(res.loss_best), **W)
        mon.check(int(res.code_used) == -1, "skipped fit reports code -1", code=int(res.code_used), **W)
        mon.check(not bool(res.fit_terminates), "skipped fit reports terminated false", **W)
        mon.seen("skipped fits judged")
    else:
        mon.check(np.all(p != ref.NOFIT) and float(res.loss_best) != ref.NOFIT and float(res.loss_best) >= 0, "fit that ran never reports fill values", p=p, loss=float(res.loss_best), **W)
        mon.check(int(res.code_used) in (0, 1), "fit that ran reports an optimizer code", code=int(res.code_used), **W)
        mon.seen("unskipped fits judged")
    mon.case(min(npts, 6), force, tag, tuple(sorted(kw)))
    mon.sample(tag=tag, npts=npts, skip=bool(res.skip_fit), forced=force)
    # the count written to the fit table is the same count
    from diffmah.fitting_helpers.diffmah_fitter_helpers import get_outline

    cols = get_outline(res).split()
    mon.check(int(cols[6]) == npts, "reported number of points", got=cols[6], want=npts, **W)


def body(mon):
    rng = rng_for(mon)
    reps = 1 if mon.tier == "quick" else 40
    for rep in range(reps):
        if rep > 2 and not mon.more():
            break
        t = np.linspace(0.4, 13.8, 14) if rep % 2 == 0 else gen.time_grid(rng, 14)
        # boundary: exactly k non-trivial points
        for k in (0, 1, 2, 3, 4, 5):
            for dt in ("f8", "f4"):
                m, kk, form = make(rng, t, k)
                judge(mon, t, m.astype(dt), {}, "exact-" + form, False)
            judge(mon, t, m, {}, "exact", True)
        # nothing selected at all
        base = 10 ** np.linspace(8, 12, 14)
        judge(mon, t, base, dict(lgm_min=12.5), "floor above everything", False)
        judge(mon, t, base, dict(t_fit_min=25.0), "minimum time after the end", False)
        judge(mon, t, base, dict(dlogm_cut=1e-3), "tiny drop", False)
        judge(mon, t, base, dict(lgm_min=float(np.log10(base[5]))), "floor at a snapshot mass", False)
        judge(mon, t, base, dict(lgm_min=11.0, dlogm_cut=5.0), "floor", False)
        # all-zero and flat histories
        z = fits.run(t, np.zeros(14))
        mon.check(bool(z.skip_fit) and np.all(fits.params(z) == -99) and z.code_used == -1, "all-zero history is skipped with fill values", res=[fits.params(z), z.code_used])
        judge(mon, t, np.full(14, 1e12), {}, "flat", False)
        one = np.zeros(14)
        one[-1] = 1e12
        judge(mon, t, one, {}, "single nonzero snapshot", False)
        two = one.copy()
        two[-3:-1] = 10**11.5
        judge(mon, t, two, {}, "three nonzero snapshots", False)
        # masses that differ from the final one by very little still count
        for gap in (1e-2, 1e-3, 1e-4, 1e-5, 1e-6):
            for k in (2, 3, 6):
                lg = np.full(14, 12.0)
                lg[:2] = 9.0
                late = np.flatnonzero(t >= 1.0)
                lg[late[:k]] = 12.0 - gap * np.linspace(1.0, 0.5, k)
                judge(mon, t, 10**lg, {}, f"within {gap:g} dex of the final mass", False)
            lg[late[:2]] = 11.0
            judge(mon, t, 10**lg, {}, f"two far below, others within {gap:g} dex", False)
            mon.seen("histories that barely grow")
        # histories no member of the model can match: the loss is large, and is reported as it is
        for frac, lo in ((0.75, 5.0), (0.9, 4.5), (0.6, 6.0)):
            lg = np.where(np.arange(14) < int(frac * 14), lo, 14.0) + 1e-3 * np.arange(14)
            judge(mon, t, 10**lg, dict(dlogm_cut=12.0, t_fit_min=0.0), "step of many dex", False)
        # light halos (other units of mass) count the same
        for hi in (1.0, 3.0, 4.9, 6.0):
            judge(mon, t, 10 ** np.linspace(hi - 4, hi, 14), {}, f"final mass of 10**{hi:g}", False)
            judge(mon, t, 10 ** np.where(np.arange(14) > 10, hi, hi - 4.0), {}, f"final mass of 10**{hi:g}, too few points", False)
        # a forced skip whatever the other options
        for kw in (dict(tpeak_fixed=9.0), dict(lgm_min=9.0, tpeak_fixed=13.0), dict(nstep=5), dict(n_warmup=0), dict(t_fit_min=2.0, dlogm_cut=1.0, lgm_min=8.0, nstep=10, n_warmup=2, tpeak_fixed=5.0)):
            judge(mon, t, base, kw, "forced with options", True)
            judge(mon, t, base, kw, "options", False)
        # decreasing history: only the final value counts
        judge(mon, t, base[::-1].copy(), {}, "decreasing", False)
        for q in range(6 if mon.tier == "quick" else 30):
            kind = gen.HISTORY_KINDS[int(rng.integers(len(gen.HISTORY_KINDS)))]
            m = gen.history(rng, kind, t)
            kw = {}
            if rng.random() < 0.6:
                kw["lgm_min"] = float(np.log10(m[-1]) - rng.uniform(0, 1))
            if rng.random() < 0.6:
                kw["dlogm_cut"] = float(rng.uniform(0.01, 1))
            if rng.random() < 0.6:
                kw["t_fit_min"] = float(rng.uniform(1, 13.8))
            judge(mon, t, m, kw, kind, bool(rng.random() < 0.2))
    mon.require("skipped fits judged", 15)
    mon.require("unskipped fits judged", 8)
