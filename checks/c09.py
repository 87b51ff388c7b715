"""Reference monitor of target selection, and metamorphic monitor: excluded data are irrelevant."""
import numpy as np

from harness import fits, gen, ref
from harness.env import rng_for

RULE = "distinct (kind of history, options, dtype) selections judged, and distinct (kind of excluded data, replacement) irrelevance experiments"
ASSUMPTIONS = ["final mass above 1e4 and allowed drop up to 10 dex", "snapshots within rounding of a threshold make that one selection unjudged"]


def opts(rng, t, m):
    kw = {}
    if rng.random() < 0.6:
        c = rng.choice(["num", "exact", "inf"])
        pos = m[m > 0]
        kw["lgm_min"] = dict(num=float(rng.uniform(5, 13)), exact=float(np.log10(float(rng.choice(pos)))), inf=-float("inf"))[c]
    if rng.random() < 0.6:
        kw["dlogm_cut"] = float(rng.choice([0.1, 0.5, 1.0, 3.0, 6.0, 10.0]))
    if rng.random() < 0.6:
        kw["t_fit_min"] = float(rng.choice([0.0, 1.0, 3.0, float(rng.choice(t)), float(t[-1])]))
    return kw


def thresholds(mon, rng, fh, nrep):
    """Masses exactly on the thresholds (powers of ten have exact logs) are not above them: they are excluded."""
    for _ in range(nrep):
        top, cut = int(rng.integers(10, 16)), int(rng.integers(1, 5))
        floor = top - int(rng.integers(1, 5))
        n = int(rng.integers(12, 40))
        t = np.linspace(1.0, 13.8, n)
        lg = np.sort(rng.choice(np.concatenate([np.arange(top - 6, top), np.arange(top - 6, top) + 0.5]), n)).astype("f8")
        m = np.where(lg == np.round(lg), np.array([float(10 ** int(x)) for x in lg]), 10**lg)
        m[-1] = float(10**top)
        for kw in (dict(dlogm_cut=float(cut)), dict(dlogm_cut=20.0, lgm_min=float(floor)), dict(dlogm_cut=float(cut), lgm_min=float(floor))):
            thr = max(top - kw["dlogm_cut"], kw.get("lgm_min", -np.inf))
            want = np.append(lg[:-1], top) > thr
            _, ld, _ = fh.get_loss_data(t, m, **kw)
            mon.check(len(ld.t_target) == want.sum() and np.allclose(np.asarray(ld.t_target), t[want], rtol=1e-5), "snapshots exactly on a mass threshold are excluded, those above it are not", got=len(ld.t_target), want=int(want.sum()), t=t, log_mah=lg, **kw)
            mon.seen("snapshots exactly on a threshold", int((lg[:-1] == thr).sum()))
            mon.case("exactly on a threshold", tuple(kw), cut)


def body(mon):
    from diffmah.fitting_helpers import diffmah_fitter_helpers as fh

    thresholds(mon, rng_for(mon, "thresholds"), fh, 12 if mon.tier == "quick" else 300)
    rng = rng_for(mon)
    n = 400 if mon.tier == "quick" else 20000
    nfit = 14 if mon.tier == "quick" else 400
    fitted = 0
    for i in range(n):
        if i > 50 and not mon.more():
            break
        kind = gen.HISTORY_KINDS[i % len(gen.HISTORY_KINDS)]
        t = gen.time_grid(rng, rng.choice([6, 12, 25, 60, 101, 181, 400]))
        if i % 6 == 4:  # snapshots soon after the beginning
            t = np.concatenate([np.sort(10 ** rng.uniform(-2, -1.01, 3)), t])
        m = gen.history(rng, kind, t)
        if i % 5 == 2 and m.dtype == np.float64:  # a slowly growing mass that never dips by more than a few per cent
            m = np.maximum.accumulate(m) * (1 - 10 ** rng.uniform(-5, -1.7) * (rng.random(len(t)) < 0.3))
            mon.seen("histories with small dips only")
        kw = opts(rng, t, m)
        if i % 6 == 4:
            kw["t_fit_min"], kw["dlogm_cut"] = float(rng.choice([0.0, float(t[1]), 0.05])), 20.0
        if "lgm_min" in kw and np.isfinite(kw["lgm_min"]) and m.dtype == np.float64 and rng.random() < 0.5:
            # masses exactly at the floor
            j = rng.integers(0, len(m) - 1, 2)
            m[j] = 10 ** kw["lgm_min"]
        W = fits.describe(t, m, kw)
        mon.context = [dict(i=i, kind=kind)]
        up, ld, skip = fh.get_loss_data(t, m, **kw)
        idx = fits.judge_target(mon, ld, t, m, kw, W)
        mon.seen("selections judged", int(idx is not None))
        mon.case("sel", kind, str(m.dtype), tuple(sorted(kw)))
        if idx is None or len(idx) == 0:
            continue
        # replace excluded snapshots (never the last one: it defines the thresholds) by other excluded values
        exc = np.setdiff1d(np.arange(len(t) - 1), idx)
        if not len(exc) or len(t) - 1 not in idx:
            continue
        m2 = m.copy()
        floor = 10.0 ** kw.get("lgm_min", -np.inf)
        thr = max(floor, float(m[-1]) * 10 ** (-kw.get("dlogm_cut", ref.DLOGM_CUT)))
        tmin = kw.get("t_fit_min", ref.T_FIT_MIN)
        how = rng.choice(["zero", "small", "early-anything"])
        for e in exc:
            if t[e] < tmin and how == "early-anything":
                # before the minimum time any mass is excluded; even one above the final mass (t_peak is the first time the final value itself is reached)
                m2[e] = float(m[-1]) * 10 ** (rng.uniform(-6, -1e-3) if rng.random() < 0.6 else rng.uniform(1e-2, 2.0))
                mon.seen("excluded masses above the final mass", int(m2[e] > m[-1]))
            elif how == "zero":
                m2[e] = 0.0
            else:
                m2[e] = thr * 10 ** rng.uniform(-6, -0.01)
        # the first time the final mass is reached must not move: that is documented to use the whole history
        tp1, tp2 = fits.tpeak_window(t, m, kw.get("lgm_min", -np.inf)), fits.tpeak_window(t, m2, kw.get("lgm_min", -np.inf))
        if tp1 != tp2:
            continue
        _, ld2, skip2 = fh.get_loss_data(t, m2, **kw)
        mon.check(bool(skip) == bool(skip2), "skip decision independent of excluded masses", mah2=m2, **W)
        same = all(np.array_equal(np.asarray(a), np.asarray(b)) for a, b in zip(ld, ld2))
        mon.check(same, "target independent of excluded masses", mah2=m2, how=how, **W)
        mon.seen("irrelevance experiments on the target")
        mon.case("irr", how, kind)
        if fitted < nfit and not skip and len(t) <= 25:
            a, b = fits.run(t, m, **kw), fits.run(t, m2, **kw)
            mon.check(np.array_equal(fits.params(a), fits.params(b)) and float(a.loss_best) == float(b.loss_best), "best fit independent of excluded masses", mah2=m2, a=fits.params(a), b=fits.params(b), **W)
            mon.seen("irrelevance experiments on the fit")
            fitted += 1
            mon.sample(kind=kind, how=how, excluded=exc, fit=fits.params(a))
    mon.require("selections judged", 50)
    mon.require("irrelevance experiments on the target", 30)
    mon.require("irrelevance experiments on the fit", 5)
