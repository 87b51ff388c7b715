"""Recovery monitor: model histories are fitted back; the population of residuals is judged."""
import numpy as np

from harness import fits, gen, ref
from harness.env import rng_for

RULE = "distinct (grid, noise level, mass decade, early or late peak) model halos fitted"
ASSUMPTIONS = ["thresholds are 5-10 times the residuals of the unchanged code: per-halo rms below 0.15 dex and 90% below 0.03 dex without noise"]


def body(mon):
    rng = rng_for(mon)
    n = 120 if mon.tier == "quick" else 4000
    res = {0.0: [], 0.02: [], 0.05: []}
    for i in range(n):
        if i > 60 and not mon.more():
            break
        nt = [25, 60, 101, 181, 400][i % 5] if mon.tier == "thorough" else [25, 60, 101, 181][i % 4]
        lo = 0.3
        t0 = [13.8, 13.47][i % 2]
        t = np.linspace(lo, t0, nt) if i % 2 else np.geomspace(lo, t0, nt)
        m, row = gen.model_history(rng, t)
        sig = [0.0, 0.0, 0.02, 0.05][(i // 3) % 4]
        if sig:
            m = m * 10 ** rng.normal(0, sig, nt)
        r = fits.run(t, m)
        if r.skip_fit:
            mon.seen("skipped (history flat over the fitted range)")
            continue
        p = fits.params(r)
        tt = np.asarray(r.loss_data.t_target, "f8")
        d = ref.log_mah(p, tt, float(r.loss_data.logt0)) - ref.log_mah(row, tt, np.log10(t0))
        rms = float(np.sqrt(np.mean(d**2)))
        W = dict(truth=row, fit=p, n_times=nt, t0=t0, noise=sig, rms=rms)
        res[sig].append(rms)
        mon.check(rms <= (0.15 if not sig else 0.3 + 4 * sig), "no gross miss of a model history", **W)
        mon.check(r.fit_terminates and r.code_used in (0, 1), "fit of a model history terminates", **W)
        if not sig:
            # peak time to the resolution of the input
            true = min(row[4], t0)
            k = int(np.searchsorted(t, true * (1 - 1e-6)))
            k = min(k, nt - 1)
            lg = np.log10(m)
            if k == 0 or lg[k] - lg[k - 1] > 1e-5:
                mon.check_close(p[4], t[k], 1e-4 * t[k], "t_peak recovered to the snapshot", **W)
                mon.seen("t_peak recoveries judged")
        mon.seen("model halos fitted")
        mon.case(nt, sig, int(row[0]), row[4] < t0, i % 2)
    for sig, v in res.items():
        if len(v) >= 20:
            v = np.sort(v)
            mon.check(v[int(0.9 * (len(v) - 1))] <= 0.03 + 4 * sig, "large majority recovered", noise=sig, p90=v[int(0.9 * (len(v) - 1))])
            mon.check(np.median(v) <= 0.01 + 2 * sig, "typical recovery", noise=sig, median=float(np.median(v)))
            mon.sample(noise=sig, n=len(v), median=float(np.median(v)), p90=float(v[int(0.9 * (len(v) - 1))]), worst=float(v[-1]))
    mon.require("model halos fitted", 50)
    mon.require("t_peak recoveries judged", 10)
