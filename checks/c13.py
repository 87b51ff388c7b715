"""Monitor of the peak-time rule in the fitter and of the fixed-peak option."""
import numpy as np

from harness import fits, gen, ref
from harness.env import rng_for

RULE = "distinct (snapshot index at which the plateau starts, grid size, dtype, fixed or not) peak times judged"
ASSUMPTIONS = ["ties at single precision may move the peak to the first snapshot equal in single precision"]


def peak_of(ld):
    return float(ref.bound(float(ld.u_t_peak), *ref.MAH_BOUNDS["t_peak"]))


def body(mon):
    from diffmah.fitting_helpers import diffmah_fitter_helpers as fh

    rng = rng_for(mon)
    n = 300 if mon.tier == "quick" else 10000
    nfit = 25 if mon.tier == "quick" else 600
    done = 0
    for i in range(n):
        if i > 60 and not mon.more():
            break
        nt = int(rng.choice([8, 14, 14, 14, 40, 101, 181, 400]))
        t0 = float(rng.choice([13.8, 13.47, rng.uniform(8, 19.5)]))
        t = gen.time_grid(rng, nt, t0=t0)
        nt = len(t)
        lg = np.sort(rng.uniform(10.5, 12.5, nt))
        k = int(rng.integers(1, nt)) if rng.random() < 0.8 else nt - 1
        lg[k:] = lg[k]
        # an earlier plateau below the final value must not be mistaken for the peak
        if k > 3 and rng.random() < 0.5:
            a = int(rng.integers(0, k - 2))
            lg[a : a + 3] = lg[a]
            lg[: k] = np.minimum.accumulate(lg[:k][::-1])[::-1]
            lg = np.maximum.accumulate(lg)
        tie = rng.random() < 0.15
        if tie and k > 1:
            lg[k - 1] = lg[k] - 1e-8
        dip = rng.random()
        if dip < 0.3 and nt > 8:  # not a cumulative history: excursions above the final value do not count as reaching it
            j = rng.choice(nt - 1, int(rng.integers(1, 4)), replace=False)
            lg[j] = lg[-1] + rng.uniform(0.05, 0.8, len(j))
            if dip < 0.1:
                lg[-1] -= rng.uniform(0.02, 0.4)
            mon.seen("histories that exceed their final value")
        m = 10**lg
        if rng.random() < 0.25:
            m = m.astype("f4")
        kw = {}
        fixed = rng.random() < 0.35
        if fixed:
            kw["tpeak_fixed"] = float(rng.choice([rng.uniform(0.1, 19.9), float(rng.choice(t)), t0]))
        if rng.random() < 0.2:
            kw["t_fit_min"] = 0.0
        if rng.random() < 0.3:
            kw["lgm_min"] = float(rng.uniform(9, 11))
        if dip < 0.1 and rng.random() < 0.5:  # the last snapshot itself is not eligible
            kw["lgm_min"] = float(lg[-1]) + 0.01
        W = fits.describe(t, m, kw)
        mon.context = [dict(i=i, k=k)]
        _, ld, skip = fh.get_loss_data(t, m, **kw)
        if skip:
            mon.seen("skipped")
            continue
        mon.check_close(float(ld.logt0), np.log10(t[-1]), 1e-6, "age at z=0 is the last snapshot time", **W)
        lo, hi = fits.tpeak_window(t, m, kw.get("lgm_min", -np.inf))
        tp = peak_of(ld)
        tol = lambda x: 2e-6 * 20 + 1e-5 * x

        def ok(v):
            if fixed:
                return abs(v - kw["tpeak_fixed"]) <= tol(v)
            return any(abs(v - s) <= tol(v) for s in t if lo <= s <= hi)

        if not fixed and m[-1] <= 10 ** kw.get("lgm_min", -np.inf):
            mon.seen("final mass below the floor: only the age is judged")
            continue
        mon.check(ok(tp), "t_peak of the fit", t_peak=tp, first_equal=[lo, hi], fixed=kw.get("tpeak_fixed"), **W)
        mon.seen("peak times judged (fixed)" if fixed else "peak times judged")
        mon.case(k, nt, str(m.dtype), fixed)
        if done < nfit and nt <= 14:
            res = fits.run(t, m, **kw)
            done += 1
            mon.check(ok(float(res.p_best.t_peak)), "t_peak of the best fit is not varied by the optimizer", t_peak=float(res.p_best.t_peak), first_equal=[lo, hi], **W)
            mon.check(float(res.loss_data.u_t_peak) == float(ld.u_t_peak) and float(res.loss_data.logt0) == float(ld.logt0), "record carries the same peak time and age", **W)
            mon.seen("fitted peak times judged")
            mon.sample(k=k, n=nt, t_peak=res.p_best.t_peak, fixed=kw.get("tpeak_fixed"))
    # the public helper for populations of histories
    tab = np.sort(rng.uniform(10, 12, (40, 30)), axis=1).astype("f4")
    first = np.zeros(40, int)
    for h in range(40):
        k = int(rng.integers(0, 30))
        tab[h, k:] = tab[h, k]
        first[h] = int(np.argmax(tab[h] == tab[h, -1]))
    got = np.asarray(fh.compute_indx_t_peak_halopop(tab))
    mon.check(np.array_equal(got, first), "population helper returns the first index of the final value", got=got, want=first)
    one = [int(fh.compute_indx_t_peak_singlehalo(x)) for x in tab[:6]]
    mon.check(one == list(first[:6]), "single-halo helper", got=one, want=first[:6])
    mon.require("peak times judged", 60)
    mon.require("peak times judged (fixed)", 30)
    mon.require("fitted peak times judged", 10)
