"""History, process and thread independence of fits; snapshot monitor of inputs and global state."""
import json
import os
import random
import subprocess
import sys
import tempfile
import threading
import warnings

import numpy as np

from harness import fits, gen, ref
from harness.env import REPO, rng_for

RULE = "distinct (job, execution context) pairs whose result was compared bit for bit with the isolated result"
ASSUMPTIONS = ["same machine and same compiled code: results must be bitwise equal"]


def grids(n):
    """Time grids of equal length that agree in their first, last and total: only the values between differ."""
    a = np.linspace(0.4, 13.8, n)
    w = np.sin(np.linspace(0, 2 * np.pi, n)) * 0.3
    w[0] = w[-1] = 0.0
    b, c = a + w, a - w
    return [a, b, c, np.geomspace(0.4, 13.8, n)]


def jobs(seed, n):
    rng = np.random.default_rng([seed, 77])
    out = []
    for i in range(n):
        kind = gen.HISTORY_KINDS[i % len(gen.HISTORY_KINDS)]
        t = grids(14)[i % 7 % 4]
        m = gen.history(rng, kind, t)
        kw = {}
        if i % 3 == 1:
            kw = dict(lgm_min=float(np.log10(m[-1]) - 1.5), dlogm_cut=2.0)
        if i % 3 == 2:
            kw = dict(tpeak_fixed=float(rng.uniform(3, 13)), nstep=20)
        if i % 5 == 4:
            kw["force_skip_fit"] = True
        out.append((t, m, kw))
    return out


def record(res):
    v = [*fits.params(res), float(res.loss_best), float(bool(res.skip_fit)), float(bool(res.fit_terminates)), float(res.code_used)]
    ld = res.loss_data
    return [float(x).hex() for x in v] + [float(x).hex() for x in np.concatenate([np.ravel(np.asarray(y, "f8")) for y in ld])]


def global_state():
    import jax

    return dict(
        np_random=repr(np.random.get_state()[1].tolist()) + repr(np.random.get_state()[2:]),
        py_random=hash(random.getstate()),
        errstate=repr(sorted(np.geterr().items())),
        warnings=repr([str(f) for f in warnings.filters]),
        cwd=os.getcwd(),
        environ=hash(tuple(sorted(os.environ.items()))),
        x64=bool(jax.config.jax_enable_x64),
        nojit=bool(jax.config.jax_disable_jit),
        debug_nans=bool(jax.config.jax_debug_nans),
        printopts=repr(np.get_printoptions()),
        threads=threading.active_count(),
    )


def module_state():
    """Values of every module-level constant of diffmah."""
    out = {}
    for name, mod in sorted(sys.modules.items()):
        if not (name == "diffmah" or name.startswith("diffmah.")) or ".tests" in name:
            continue
        for k, v in sorted(vars(mod).items()):
            if k.startswith("__") or callable(v) and not isinstance(v, dict):
                continue
            if isinstance(v, (dict, list)) and not any(w in k for w in ("DEFAULT", "PDICT", "BOUNDS", "COLNAMES", "PNAMES")):
                continue  # a private cache is not a default
            if k.strip("_") != k.strip("_").upper() and "PNAMES" not in k and not hasattr(v, "_fields"):
                continue
            if isinstance(v, (int, float, str, dict, list, tuple)):
                out[f"{name}.{k}"] = repr(v)
            elif hasattr(v, "shape"):
                out[f"{name}.{k}"] = np.asarray(v).tobytes().hex()
    return out


def diffs(a, b):
    return {k: (a.get(k), b.get(k)) for k in set(a) | set(b) if a.get(k) != b.get(k)}


def body(mon):
    import diffmah
    from diffmah import diffmah_kernels as dk
    from diffmah.diffmahpop_kernels import bimod_censat_params as bcp
    from diffmah.diffmahpop_kernels import mc_bimod_cens as mcc
    from diffmah.fitting_helpers import diffmah_fitter_helpers as fh
    from jax import random as jran

    nj = 15 if mon.tier == "quick" else 40
    J = jobs(mon.seed, nj)

    # ---- no mutation of inputs or global state, across every public call
    def frozen(what, fn, *arrays):
        copies = [np.array(a, copy=True) for a in arrays]
        m0 = module_state()
        with warnings.catch_warnings():  # the state is taken inside: leaving this block would restore the filters
            warnings.simplefilter("ignore")
            g0 = global_state()
            fn(*arrays)
            g1 = global_state()
        m1 = module_state()
        for a, c in zip(arrays, copies):
            mon.check(np.array_equal(np.asarray(a), c, equal_nan=c.dtype.kind in "fc"), f"{what}: input arrays not modified", before=c, after=np.asarray(a))
        g0.pop("threads"), g1.pop("threads")
        d = diffs(g0, g1)
        mon.check(not d, f"{what}: global state unchanged", changed=d)
        d = diffs(m0, m1)
        mon.check(not d, f"{what}: module constants unchanged", changed={k: [str(x)[:120] for x in v] for k, v in d.items()})
        mon.seen("calls watched for side effects")
        mon.case("pure", what)

    rng = rng_for(mon)
    for t, m, kw in J[:6]:
        frozen("diffmah_fitter " + repr(sorted(kw)), lambda a, b: diffmah.diffmah_fitter(a, b, **kw), t, m)
    for q, (scale, what) in enumerate(((1e-10, "suspiciously small masses"), (0.0, "all zero"), (1e3, "huge masses"))):
        frozen(f"diffmah_fitter, {what}", lambda a, b: diffmah.diffmah_fitter(a, b), J[q][0], np.asarray(J[q][1] * scale, "f8"))
    p = gen.halos(rng, 5)
    tt = np.linspace(1, 13, 7).astype("f4")
    frozen("mah_halopop", lambda t, *q: diffmah.mah_halopop(dk.DiffmahParams(*q), t, 1.14), tt, *p)
    frozen("mah_singlehalo", lambda t, *q: diffmah.mah_singlehalo(dk.DiffmahParams(*[x[0] for x in q]), t, 1.14), tt, *p)
    frozen("logmh_at_t_obs", lambda t, *q: diffmah.logmh_at_t_obs(dk.DiffmahParams(*q), t[:5], 1.14), tt, *p)
    frozen("mc_cenpop", lambda a, b: mcc.mc_cenpop(bcp.DEFAULT_DIFFMAHPOP_PARAMS, tt, a, b, jran.key(1), 1.14), np.linspace(11, 14, 4), np.full(4, 10.0))
    frozen("get_bounded", lambda *u: dk.get_bounded_mah_params(dk.DiffmahUParams(*u)), *[np.zeros(3, "f4")] * 5)
    from diffmah.fitting_helpers import fit_utils as fu

    c = np.array([1.0, -2.0], "f4")
    frozen("jax_adam_wrapper", lambda p0: fu.jax_adam_wrapper(lambda p, d: (float(np.sum(p**2)), 2 * p), p0, (), 5, n_warmup=1, warmup_n_step=3), c)
    from diffmah import utils as du
    from diffmah.fitting_helpers import measure_mahs as mm

    frozen("get_dt_array", du.get_dt_array, np.sort(rng.uniform(0, 13, 9)))
    frozen("trimmed_mean_and_variance", lambda x: du.trimmed_mean_and_variance(x, 0.1), rng.normal(0, 1, 30))
    with tempfile.TemporaryDirectory(prefix="verif_c12_") as drn:
        for ncols in (8, 9):
            rows = np.array([[f"{x:.5e}" for x in rng.normal(0, 3, ncols - 2)] + ["5", "0"] for _ in range(6)])
            if ncols == 9:
                rows[:, 0] = [str(2**62 + i) for i in range(6)]
            rows[2, ncols - 3] = "nan"
            rows[3, ncols - 8 : ncols - 2] = "-9.90000e+01"
            frozen(f"write_collated_data, {ncols} columns", lambda x: fh.write_collated_data(os.path.join(drn, "t.hdf5"), x), rows)
    h = 10 ** np.maximum.accumulate(rng.uniform(9, 13, (6, 20)), axis=1)
    frozen("measure_target_data", lambda a, b, d: mm.measure_target_data(a, b, d, np.array([3.0, 8.0]), 12.0), h, h * 1e-9, np.linspace(1, 13.8, 20)) if _mt_ok(mm) else mon.skip("measure_target_data signature")

    # ---- isolated results
    base = [record(fits.run(t, m, **kw)) for t, m, kw in J]

    def compare(got, k, what):
        mon.check(got == base[k], f"fit result identical {what}", job=k, got=got[:9], want=base[k][:9], mah=J[k][1], options=J[k][2])
        mon.seen("fits compared bit for bit")
        mon.case(what, k)

    # other orders, interleaved with other library calls
    for rep in range(2 if mon.tier == "quick" else 12):
        for k in rng.permutation(nj):
            if rng.random() < 0.5:
                diffmah.mah_halopop(dk.DiffmahParams(*p), tt, np.float32(1.1))
            if rng.random() < 0.2:
                fits.run(J[(k + 3) % nj][0], J[(k + 5) % nj][1], nstep=3)
            if rng.random() < 0.2:
                np.random.seed(int(rng.integers(1 << 30)))
                random.seed(5)
            t, m, kw = J[k]
            compare(record(fits.run(t, m, **kw)), int(k), "in another order")
    # copies, read-only arrays, non-contiguous views of the same data
    for k in range(0, nj, 3):
        t, m, kw = J[k]
        ro_t, ro_m = t.copy(), m.copy()
        ro_t.setflags(write=False), ro_m.setflags(write=False)
        compare(record(fits.run(ro_t, ro_m, **kw)), k, "for read-only inputs")
        big = np.zeros((len(m), 3), m.dtype)
        big[:, 1] = m
        compare(record(fits.run(t, big[:, 1], **kw)), k, "for strided inputs")
    # threads
    for rep in range(1 if mon.tier == "quick" else 8):
        out, errs = {}, []
        bar = threading.Barrier(6)

        def work(w):
            try:
                bar.wait()
                for k in np.random.default_rng([mon.seed, rep, w]).permutation(nj):
                    t, m, kw = J[k]
                    out[(w, int(k))] = record(_quiet_run(t, m, kw))
            except BaseException as ex:
                errs.append(ex)

        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            th = [threading.Thread(target=work, args=(w,)) for w in range(6)]
            [x.start() for x in th]
            [x.join() for x in th]
        if errs:
            raise errs[0]
        for (w, k), v in out.items():
            compare(v, k, "from concurrent threads")
    # fresh processes, each seeing a different subset and order
    procs = []
    for w in range(2 if mon.tier == "quick" else 6):
        order = [int(k) for k in rng.permutation(nj)]
        first = [k for k in order if k % 7 % 4 == 1 + w % 3]  # each process meets another time grid first
        order = first + [k for k in order if k not in first]
        code = (
            "import sys,json;sys.path[:0]=[%r,%r];from harness import env,fits;env.prepare();from checks import c12;"
            "J=c12.jobs(%d,%d);print('RESULT'+json.dumps([[k,c12.record(fits.run(J[k][0],J[k][1],**J[k][2]))] for k in %r]))"
            % (REPO, os.path.dirname(os.path.dirname(os.path.abspath(__file__))), mon.seed, nj, order)
        )
        procs.append(subprocess.Popen([sys.executable, "-c", code], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True))
    for pr in procs:
        o, e = pr.communicate(timeout=600)
        line = [x for x in o.splitlines() if x.startswith("RESULT")]
        if not line:
            raise RuntimeError("fresh process gave no result: " + e[-2000:])
        for k, v in json.loads(line[0][6:]):
            compare(v, k, "in a fresh process")
    fallback_history(mon, rng)
    # population draws: same key, same population, whatever ran before
    D = bcp.DEFAULT_DIFFMAHPOP_PARAMS
    a = (np.linspace(11, 15, 8).astype("f4"), np.full(8, 9.0, "f4"))
    r1 = mcc.mc_diffmah_cenpop(D, *a, jran.key(3), 1.14)
    mcc.mc_diffmah_cenpop(D, *a, jran.key(4), 1.14)
    r2 = mcc.mc_diffmah_cenpop(D, *a, jran.key(3), 1.14)
    mon.check(all(np.array_equal(np.asarray(x), np.asarray(y)) for x, y in zip(r1.mah_params, r2.mah_params)), "same key, same population")
    mon.sample(jobs=nj, first=base[0][:6])
    mon.require("fits compared bit for bit", 60)
    mon.require("calls watched for side effects", 10)


def fallback_history(mon, rng):
    """The optimizer wrappers, with and without other (succeeding, failing) runs before them."""
    from diffmah.fitting_helpers.bfgs_wrapper import bfgs_adam_fallback

    def problem(c, base, nan_at=None):
        calls = [0]

        def f(p, data):
            p = np.asarray(p, "f8")
            calls[0] += 1
            v = base + float(np.sum((p - c) ** 2))
            return (np.nan if calls[0] == nan_at else v), 2 * (p - c)

        return f

    def rec(r):
        return [np.asarray(r[0], "f8").tolist(), float(r[1]), int(r[2]), int(r[3])]

    def solve(j):
        c, base, p0, nan_at, nw = P[j]
        return rec(bfgs_adam_fallback(problem(c, base, nan_at), p0.copy(), None, nstep=6, n_warmup=nw))

    P = []
    for j in range(8):
        dim = [2, 4][j % 2]
        # a negative loss or an early NaN makes the quasi-Newton run fail, so that the fallback runs
        P.append((rng.normal(0, 5, dim), [1.0, -30.0, 0.5, 2.0][j // 2], rng.normal(0, 1, dim), 1 if j // 2 == 3 else None, j % 3 % 2))
    first = [solve(j) for j in range(len(P))]
    codes = {r[3] for r in first}
    mon.check(codes == {0, 1}, "both optimizers were exercised", codes=sorted(codes))
    for rep in range(4 if mon.tier == "quick" else 40):
        for j in rng.permutation(len(P)):
            got = solve(int(j))
            mon.check(got == first[j], "optimizer result identical whatever was optimized before", job=int(j), got=got, want=first[j])
            mon.seen("optimizer runs compared")
            mon.case("optimizer history", int(j))
    # and from a process whose first run is the failing one
    want = solve(2)
    for k in (0, 1, 4):
        solve(k)
        got = solve(2)
        mon.check(got == want, "fallback result identical after a successful run", got=got, want=want)
    # the fitter itself, its quasi-Newton run made to fail by a NaN
    from diffmah.fitting_helpers import diffmah_fitter_helpers as fh

    real = fh.loss_and_grads_kern
    t = grids(14)[0]
    hist = [10 ** (lg0 + 2 * np.log10(t / 13.8) + 0.05 * np.sin(5 * t)) for lg0 in (11.0, 14.0)]

    def failing(m):
        calls = [0]

        def hostile(p, data):
            calls[0] += 1
            v, g = real(p, data)
            return (np.float32(np.nan), g) if calls[0] <= 1 else (v, g)

        try:
            fh.loss_and_grads_kern = hostile
            return record(fits.run(t, m, nstep=20)), calls[0]
        finally:
            fh.loss_and_grads_kern = real

    a, nc = failing(hist[0])
    if nc:
        fits.run(t, hist[1])
        b, _ = failing(hist[0])
        mon.check(a == b, "fallback fit identical whatever was fitted before", got=b[:9], want=a[:9])
        mon.seen("fallback fits compared")


def _quiet_run(t, m, kw):
    from diffmah import diffmah_fitter

    return diffmah_fitter(t, m, **kw)


def _mt_ok(mm):
    import inspect

    return len(inspect.signature(mm.measure_target_data).parameters) == 5
