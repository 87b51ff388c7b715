"""Fault injection into the loss function, with an offline checker over the recorded optimizer trace."""
import numpy as np

from harness.env import priv, rng_for

RULE = "distinct (fault kind, step at which it is injected, warm-up rounds, optimizer entry point) traces judged"
LEVEL = "fault_enumeration"
ASSUMPTIONS = ["losses are called once per gradient-descent step, in order", "documented warm-up length of 50 steps"]


class Recorder:
    """loss-and-gradient callable that logs every evaluation and injects a fault at chosen calls"""

    def __init__(self, fn, fault=None, at=()):
        self.fn, self.fault, self.at = fn, fault, at
        self.log = []

    def __call__(self, p, data):
        k = len(self.log)
        p = np.asarray(p, dtype="f8").copy()
        v, g = self.fn(p)
        v, g = np.float64(v), np.asarray(g, "f4").copy()
        if self.fault and (self.at == "always" or (k >= self.at if isinstance(self.at, int) else k in self.at)):
            if self.fault in ("nan", "nan-both"):
                v = np.float64(np.nan)
            if self.fault == "inf":
                v = np.float64(np.inf)
            if self.fault in ("nan-grad", "nan-both"):
                g[0] = np.nan
            if self.fault == "inf-grad":
                g[-1] = np.inf
        self.log.append((p, float(v), g.astype("f8")))
        return v, g


def quad(c, s, base):
    def f(p):
        d = (p - c) * s
        return base + float(np.sum(d * d)), 2 * d * s

    return f


def wiggly(c, base):
    def f(p):
        d = p - c
        return base + float(np.sum(d * d) + 0.5 * np.sum(1 - np.cos(6 * d))), 2 * d + 3 * np.sin(6 * d)

    return f


def bad(e):
    return not (np.isfinite(e[1]) and np.all(np.isfinite(e[2])) and np.all(np.isfinite(e[0])))


def split(log, n_step, n_warmup, warm):
    """Reconstruct warm-up rounds and the final run from the trace (a run ends at its first fault)."""
    segs, i = [], 0
    for want in [warm] * n_warmup + [n_step]:
        seg = []
        while len(seg) < want and i < len(log):
            seg.append(log[i])
            i += 1
            if bad(seg[-1]):
                break
        segs.append(seg)
    return segs, i


def judge_adam(mon, rec, res, p0, n_step, n_warmup, warm, W):
    p, loss, loss_arr, params_arr, term = res
    p = np.asarray(p, "f8")
    log = rec.log
    segs, used = split(log, n_step, n_warmup, warm)
    mon.check(used == len(log), "number of optimizer steps taken", steps=len(log), explained=used, **W)
    final = segs[-1]
    good = [e for e in final if not bad(e)]
    stopped = any(bad(e) for e in final)
    mon.check(np.all(np.isfinite(p)), "fallback never returns non-finite parameters", p=p, **W)
    mon.check(int(term) == (0 if stopped else 1), "failure reported exactly when stopped early by a non-finite value", term=int(term), stopped=stopped, **W)
    if good:
        best = min(e[1] for e in good)
        mon.check_close(float(loss), best, 1e-6 * abs(best) + 1e-12, "returned loss is the smallest visited before the fault", **W)
        at = [e[0] for e in good if abs(e[1] - best) <= 1e-6 * abs(best) + 1e-12]
        mon.check(any(np.allclose(p, q, rtol=1e-6, atol=1e-7) for q in at), "returned parameters are those of the smallest loss", p=p, best_at=at[0], **W)
        la = np.asarray(loss_arr, "f8")
        mon.check_close(la, np.array([e[1] for e in good]), 1e-6 * np.abs([e[1] for e in good]) + 1e-12, "loss history is the trace", **W)
        pa = np.asarray(params_arr, "f8")
        mon.check_close(pa[: len(good)], np.array([e[0] for e in good]), 1e-6 * (1 + np.abs(np.array([e[0] for e in good]))), "parameter history is the trace", **W)
    else:
        first = final[0][0] if final else p0
        mon.check(np.allclose(p, first, rtol=1e-6, atol=1e-7), "nothing visited: the start of the run is returned", p=p, run_start=first, **W)
    # each run starts from the best point of the run before it
    prev = np.asarray(p0, "f8")
    for s in segs:
        if s:
            mon.check(np.allclose(s[0][0], prev, rtol=1e-5, atol=1e-6), "a run starts from the best parameters of the warm-up before it", got=s[0][0], want=prev, **W)
        g = [e for e in s if not bad(e)]
        if g:
            prev = min(g, key=lambda e: e[1])[0]
        elif s:
            prev = s[0][0]
    mon.seen("gradient-descent traces judged")
    mon.seen("optimizer steps recorded", len(log))


def outcomes(mon, rng, bw):
    """Every combination of what the quasi-Newton library call may report, enumerated by a stand-in for that call."""
    import scipy.optimize as so

    funs = [5.0, 1.0, 1e-3, 1e-7, 1e-9, 1e-12, 1e-30, 1e-300, 0.0, -0.0, -1e-9, -3.0, np.nan, np.inf, -np.inf, np.float32(0.25), np.float64(2e-8)]
    for fun in funs:
        for success in (True, False, np.True_, np.False_):
            nd = int(rng.integers(1, 6))
            c = rng.normal(0, 2, nd)
            f = quad(c, np.ones(nd), 0.5)
            p0 = (c + rng.normal(0, 1, nd)).astype("f4")
            x = c + rng.normal(0, 0.1, nd)
            called = []

            def fake(func, start, *a, **k):
                called.append(np.array(start))
                return so.OptimizeResult(x=x.copy(), fun=fun, success=success, status=0 if success else 2, message="stand-in", nit=3, nfev=4, njev=4, jac=np.zeros(nd))

            saved = [(m, m.minimize) for m in (so, bw) if hasattr(m, "minimize")]
            rec = Recorder(f)
            try:
                for m, _ in saved:
                    m.minimize = fake
                p, loss, term, code = bw.bfgs_adam_fallback(rec, p0, (), 4, 0)
            finally:
                for m, o in saved:
                    m.minimize = o
            if not called:
                mon.skip("quasi-Newton step does not go through scipy.optimize.minimize")
                return
            W = dict(reported_loss=repr(fun), reported_success=repr(success))
            if bool(success) and np.isfinite(fun) and fun > 0:
                mon.check(int(code) == 0 and np.array_equal(np.asarray(p), x) and float(loss) == float(fun) and bool(term), "good quasi-Newton result returned unchanged", code=code, p=p, x=x, loss=loss, **W)
                mon.check(len(rec.log) == 0, "no fallback after success", steps=len(rec.log), **W)
            else:
                mon.check(int(code) == 1 and len(rec.log) == 4, "fallback runs when the quasi-Newton step failed or its loss is unusable", code=code, steps=len(rec.log), **W)
                best = min(e[1] for e in rec.log) if rec.log else np.nan
                mon.check_close(float(loss), best, 1e-6 * abs(best) + 1e-12, "fallback returns the smallest loss it visited", **W)
                mon.check(bool(term), "fallback that completed is a success", **W)
            mon.seen("reported outcomes enumerated")
            mon.case("outcome", repr(fun), bool(success))


def body(mon):
    from diffmah.fitting_helpers import bfgs_wrapper as bw
    from diffmah.fitting_helpers import fit_utils as fu

    rng = rng_for(mon)

    def problem():
        nd = int(rng.integers(1, 6))
        c = rng.normal(0, 2, nd)
        base = float(rng.choice([0.01, 1.0, 5.0]))
        f = quad(c, rng.uniform(0.5, 3, nd), base) if rng.random() < 0.5 else wiggly(c, base)
        p0 = (c + rng.normal(0, 1, nd)).astype("f4")
        return f, p0

    # ---- the fallback by itself: every fault kind at enumerated steps
    faults = [None, "nan", "inf", "nan-grad", "inf-grad", "nan-both"]
    nsteps = [1, 2, 12] if mon.tier == "quick" else [1, 2, 3, 7, 12, 30]
    for n_step in nsteps:
        for n_warmup in (0, 1, 2):
            warm = 50 if (n_warmup and mon.tier == "thorough") else 6
            total = n_warmup * warm + n_step
            ats = sorted({0, 1, warm - 1, warm, total - 1, total // 2, n_warmup * warm, n_warmup * warm + 1})
            if mon.tier == "thorough" and total < 60:
                ats = range(total)
            for fault in faults:
                for at in [None] if fault is None else ats:
                    if not mon.more():
                        break
                    f, p0 = problem()
                    for once in (True, False) if fault else (True,):
                        where = () if at is None else ((at,) if once else int(at))
                        rec = Recorder(f, fault, where)
                        W = dict(fault=fault, at=at, once=once, n_step=n_step, n_warmup=n_warmup, start=p0)
                        before = p0.copy()
                        res = fu.jax_adam_wrapper(rec, p0, (), n_step, n_warmup=n_warmup, warmup_n_step=warm)
                        mon.check(np.array_equal(before, p0), "start parameters not modified", **W)
                        judge_adam(mon, rec, res, p0, n_step, n_warmup, warm, W)
                        if fault:
                            mon.seen("faults injected")
                        mon.case("adam", fault, at, once, n_step, n_warmup)
    # default warm-up length is the documented 50 steps
    f, p0 = problem()
    rec = Recorder(f)
    res = fu.jax_adam_wrapper(rec, p0, (), 7, n_warmup=1)
    judge_adam(mon, rec, res, p0, 7, 1, 50, dict(default_warmup=True))
    # stop-at-tolerance: reported as success, with the parameters that reached it
    for _ in range(4):
        f, p0 = problem()
        rec = Recorder(f)
        tol = f(p0.astype("f8"))[0] * rng.uniform(0.9, 1.2) + 1e-3
        res = fu.jax_adam_wrapper(rec, p0, (), 60, tol=tol)
        reached = [e for e in rec.log if e[1] < tol]
        if reached:
            mon.check(int(res[-1]) == 1, "fit that reached the tolerance is a success", tol=tol, term=res[-1])
            mon.check(float(res[1]) <= tol and np.allclose(res[0], reached[0][0], atol=1e-6), "tolerance exit returns the point that reached it", tol=tol, loss=float(res[1]))
            mon.case("tol", len(rec.log))

    # ---- the combined optimizer
    class Lie:
        """correct value, wrong gradient: the line search cannot succeed"""

        def __init__(self, f):
            self.f = f

        def __call__(self, p):
            v, g = self.f(p)
            return v, -np.asarray(g)

    def negative(f):
        return lambda p: (f(p)[0] - 1e3, f(p)[1])

    def zero_min(c):
        return lambda p: (float(np.sum(np.maximum(np.abs(p - c) - 0.5, 0) ** 2)), 2 * np.maximum(np.abs(p - c) - 0.5, 0) * np.sign(p - c))

    modes = ["clean", "always-nan", "always-inf", "first-nan", "late-nan", "lie", "negative", "zero", "nan-grad", "region-nan"]
    reps = 3 if mon.tier == "quick" else 60
    lbfgs = priv(bw, "scipy_lbfgs_wrapper")  # None when the wrapper goes by another name: outcomes() still judges
    for rep in range(reps if lbfgs else 0):
        for mode in modes:
            if rep > 2 and not mon.more():
                break
            f, p0 = problem()
            nstep, nwarm = int(rng.choice([3, 20])), int(rng.choice([0, 1]))
            if mode == "clean":
                mk = lambda: Recorder(f)
            elif mode in ("always-nan", "always-inf"):
                mk = lambda: Recorder(f, mode.split("-")[1], "always")
            elif mode == "first-nan":
                mk = lambda: Recorder(f, "nan-both", (0, 1))
            elif mode == "late-nan":
                mk = lambda: Recorder(f, "nan-both", int(4 + rep))
            elif mode == "nan-grad":
                mk = lambda: Recorder(f, "nan-grad", (1, 2, 3))
            elif mode == "lie":
                lie = Lie(f)
                mk = lambda: Recorder(lie)
            elif mode == "negative":
                neg = negative(f)
                mk = lambda: Recorder(neg)
            elif mode == "zero":
                zf = zero_min(p0.astype("f8") + rng.choice([0.2, 0.8, 2.0]))
                mk = lambda: Recorder(zf)
            else:  # a region of parameter space where the loss is NaN, hit deterministically
                c = p0.astype("f8") - 0.02

                def region(p, f=f, c=c):
                    v, g = f(p)
                    return (np.nan, g * np.nan) if np.any(p < c - 3.0) else (v, g)

                mk = lambda: Recorder(region)
            W = dict(mode=mode, nstep=nstep, n_warmup=nwarm, start=p0)
            ra = mk()
            x, fun, ok = lbfgs(ra, p0, ())
            rb = mk()
            res = bw.bfgs_adam_fallback(rb, p0, (), nstep, nwarm)
            mon.check(len(res) == 4, "four results", n=len(res), **W)
            p, loss, term, code = res
            accept = bool(ok) and np.isfinite(fun) and fun > 0
            nb = len(ra.log)
            if accept:
                mon.check(int(code) == 0, "accepted quasi-Newton result marked 0", code=code, **W)
                mon.check(np.array_equal(np.asarray(p), np.asarray(x)) and float(loss) == float(fun) and bool(term), "quasi-Newton result returned unchanged", p=p, x=x, loss=loss, fun=fun, **W)
                mon.check(len(rb.log) == nb, "no fallback after success", steps=len(rb.log), bfgs=nb, **W)
                # the quasi-Newton run itself is honest: it returns a visited point with its loss
                m = [e for e in rb.log if np.allclose(e[0], p, rtol=1e-5, atol=1e-6)]
                mon.check(bool(m) and any(abs(e[1] - float(loss)) <= 1e-6 * (1 + abs(e[1])) for e in m), "quasi-Newton loss belongs to its parameters", p=p, loss=loss, **W)
            else:
                mon.check(int(code) == 1, "fallback result marked 1", code=code, fun=fun, ok=bool(ok), **W)
                sub = Recorder(f)
                sub.log = rb.log[nb:]
                mon.check(len(sub.log) > 0, "fallback ran", **W)
                segs, used = split(sub.log, nstep, nwarm, 50)
                mon.check(used == len(sub.log), "fallback takes the requested number of steps", used=used, steps=len(sub.log), **W)
                good = [e for e in segs[-1] if not bad(e)]
                stop = any(bad(e) for e in segs[-1])
                # a warm-up that reaches a loss below the tolerance of zero ends the fit early
                early = len(segs[-1]) < nstep and not stop
                mon.check(np.all(np.isfinite(np.asarray(p, "f8"))), "fallback parameters finite", p=p, **W)
                mon.check(np.allclose(sub.log[0][0], p0, atol=1e-6), "fallback starts from the caller's start", first_point=sub.log[0][0], **W)
                if not early:
                    mon.check(int(term) == (0 if stop else 1), "fallback failure reported exactly when stopped early", term=term, stop=stop, **W)
                    if good:
                        best = min(e[1] for e in good)
                        mon.check_close(float(loss), best, 1e-6 * abs(best) + 1e-12, "fallback returns the smallest loss it visited", **W)
                        mon.check(any(np.allclose(np.asarray(p), e[0], rtol=1e-6, atol=1e-7) for e in good if abs(e[1] - best) <= 1e-6 * abs(best) + 1e-12), "fallback parameters belong to its loss", p=p, **W)
                mon.seen("fallbacks observed")
            mon.seen("combined-optimizer runs judged")
            mon.case("combined", mode, accept, nstep, nwarm)
            mon.sample(mode=mode, accepted=accept, code=code, loss=loss, steps=len(rb.log))
    outcomes(mon, rng, bw)
    mon.require("faults injected", 50)
    if lbfgs:
        mon.require("fallbacks observed", 6)
