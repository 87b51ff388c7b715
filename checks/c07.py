"""Offline judge of every fit record: finite, in bounds, honest loss, no worse than the start."""
import numpy as np

from harness import fits, gen, ref
from harness.env import rng_for

RULE = "distinct (kind of history, number of snapshots, dtype, options, optimizer used) fits judged"
ASSUMPTIONS = ["final masses between 1e4 and 10**16.4, last snapshot time 10-20 Gyr", "loss tolerance 1.5e-4*sqrt(loss)+5e-9 (float32 kernel)"]


def options(rng, t, i):
    kw = {}
    if rng.random() < 0.4:
        kw["lgm_min"] = float(rng.choice([-np.inf, 6.0, 9.0, 10.5, 11.0]))
    if rng.random() < 0.4:
        kw["dlogm_cut"] = float(rng.choice([0.5, 1.0, 2.5, 4.0, 8.0]))
    if rng.random() < 0.4:
        kw["t_fit_min"] = float(rng.choice([0.0, 0.5, 1.0, 2.0, 5.0]))
    if rng.random() < 0.3:
        kw["tpeak_fixed"] = float(rng.uniform(1.0, 19.0))
    if rng.random() < 0.3:
        kw["nstep"] = int(rng.choice([5, 50]))
    if rng.random() < 0.2:
        kw["n_warmup"] = int(rng.choice([0, 1, 2]))
    return kw


def body(mon):
    rng = rng_for(mon)
    n = 60 if mon.tier == "quick" else 2500
    for i in range(n):
        if i > 25 and not mon.more():
            break
        kind = gen.HISTORY_KINDS[i % len(gen.HISTORY_KINDS)]
        t0 = float(rng.choice([13.8, 13.47, 13.79, rng.uniform(10, 19.9)]))
        nt = int(rng.choice([5, 12, 25, 50, 101, 181]))
        if i % 8 == 5:  # finely sampled histories that the model cannot match exactly
            nt, kind = int(rng.choice([140, 181, 300, 450, 700])), ("noisy", "bursty", "jumps")[i // 8 % 3]
        t = gen.time_grid(rng, nt, t0=t0)
        m = gen.history(rng, kind, t)
        kw = options(rng, t, i) if i % 2 else {}
        if i % 7 == 3:
            t = t.astype("f4")
        W = fits.describe(t, m, kw)
        mon.context = [dict(i=i, kind=kind)]
        keep = (t.tobytes(), m.tobytes())
        res = fits.run(t, m, **kw)
        mon.check(keep == (t.tobytes(), m.tobytes()), "inputs not modified", **W)
        mon.check(tuple(res._fields) == ("p_best", "loss_best", "skip_fit", "fit_terminates", "code_used", "loss_data"), "documented record fields", got=res._fields)
        fits.judge_target(mon, res.loss_data, t, m, kw, W)
        if res.skip_fit:
            mon.seen("skipped fits")
            continue
        L = fits.judge_success(mon, res, t, m, kw, W)
        mon.check(res.code_used in (0, 1), "optimizer code of a fit that ran", code=res.code_used, **W)
        mon.seen(f"fits judged (code {res.code_used})")
        mon.seen("fits judged")
        mon.case(kind, len(t), str(m.dtype), tuple(sorted(kw)), res.code_used)
        mon.sample(kind=kind, n=len(t), options=kw, loss=res.loss_best, recomputed=L, p=fits.params(res))
    # the fallback branch, reached with the real loss: quasi-Newton made to fail by an exploding first line search
    from diffmah.fitting_helpers import diffmah_fitter_helpers as fh

    real = fh.loss_and_grads_kern
    for k in range(8 if mon.tier == "quick" else 80):
        t = gen.time_grid(rng, 25)
        m = gen.history(rng, rng.choice(["model", "noisy", "jumps", "plateau"]), t)
        kw = [{}, dict(nstep=60, n_warmup=2), dict(nstep=7, n_warmup=0), dict(nstep=200, n_warmup=3)][k % 4]
        calls = dict(n=0)

        def hostile(p, data, _k=k):
            calls["n"] += 1
            v, g = real(p, data)
            if calls["n"] <= 2:  # first value and gradient of the quasi-Newton run
                return np.float32(np.nan), type(g)(*[np.float32(np.nan)] * len(g)) if hasattr(g, "_fields") else np.full(4, np.nan)
            return v, g

        try:
            fh.loss_and_grads_kern = hostile
            res = fits.run(t, m, **kw)
        finally:
            fh.loss_and_grads_kern = real
        if calls["n"] == 0 or res.skip_fit:
            continue
        W = fits.describe(t, m, dict(injected="NaN in the first quasi-Newton evaluation", **kw))
        mon.check(np.all(np.isfinite(fits.params(res))), "fallback parameters finite", p=fits.params(res), **W)
        if res.code_used == 1:
            fits.judge_success(mon, res, t, m, {}, W)
            mon.seen("fallback fits judged")
            mon.case("fallback", k)
    mon.require("fits judged", 20)
