"""Differential monitor between entry points, batch orders, batchings and concurrent callers."""
import threading

import numpy as np

from harness import gen, ref
from harness.env import priv, rng_for

RULE = "distinct (population size, time-grid size, kind of comparison) combinations"
ASSUMPTIONS = ["different compiled batch shapes may differ by float32 rounding: 1e-5 dex, 1e-4 relative in the rate"]


def _cmp(mon, a, b, what, **kw):
    da, la = [np.asarray(x).astype("f8") for x in a]
    db, lb = [np.asarray(x).astype("f8") for x in b]
    mon.check_close(la, lb, 1e-5, what + " (log mass)", **kw)
    if da.shape == db.shape:
        mon.check_close(da, db, 1e-4 * np.maximum(np.abs(da), np.abs(db)) + kw.pop("atol", 0) + 1e-30 + 1e-6 * 10**la / 1e9, what + " (rate)", **kw)
    else:
        mon.check(False, what + " (rate shape)", a=list(da.shape), b=list(db.shape))
    mon.seen("result pairs compared", la.size)


def body(mon):
    import diffmah
    from diffmah import diffmah_kernels as dk

    rng = rng_for(mon)
    n_rounds = 11 if mon.tier == "quick" else 150
    shapes = [(1, 1), (2, 7), (17, 30), (64, 12), (5, 1), (1, 40), (33, 33), (7, 2), (130, 130), (5000, 6), (70000, 3)]
    if mon.tier == "thorough":
        shapes += [(3, 3), (300, 300), (4, 5000), (1025, 1), (600000, 2), (513, 512), (2, 2)]
    for r in range(n_rounds):
        if r > 4 and not mon.more():
            break
        n, nt = shapes[r % len(shapes)]
        lgt0 = gen.lgt0(rng)
        t0 = 10 ** float(lgt0)
        p = gen.halos(rng, n, ordered=True, t0=t0)
        t = gen.times(rng, nt, p[4], t0)
        # the rate at the bitwise t_peak is a jump: keep it out of cross-shape comparisons
        t = np.array([x if not np.any(x == p[4]) else np.nextafter(np.float32(x), np.float32(0)) for x in t], "f4")
        t = np.array([x if not np.any(x == p[4]) else x * np.float32(1.001) for x in t], "f4")
        mon.context = [dict(round=r, n=n, nt=nt)]
        pop = dk.DiffmahParams(*p)
        base = diffmah.mah_halopop(pop, t, lgt0)
        mon.check(base[0].shape == (n, nt) and base[1].shape == (n, nt), "population result shape", shape=list(base[1].shape))
        for i in (range(n) if n <= 8 else rng.choice(n, 6, replace=False)):
            one = diffmah.mah_singlehalo(dk.DiffmahParams(*[x[i] for x in p]), t, lgt0)
            _cmp(mon, one, (base[0][i], base[1][i]), "single halo vs population row", i=int(i), params=[x[i] for x in p], t=t, lgt0=lgt0)
            mon.case("row", n, nt)
        perm = rng.permutation(n)
        pp = diffmah.mah_halopop(dk.DiffmahParams(*[x[perm] for x in p]), t, lgt0)
        _cmp(mon, pp, (base[0][perm], base[1][perm]), "permuted population", n=n)
        mon.case("perm", n, nt)
        tp = rng.permutation(nt)
        pt = diffmah.mah_halopop(pop, t[tp], lgt0)
        _cmp(mon, pt, (base[0][:, tp], base[1][:, tp]), "permuted times", n=n)
        sub = np.sort(rng.choice(n, int(rng.integers(1, n + 1)), replace=False))
        ps = diffmah.mah_halopop(dk.DiffmahParams(*[x[sub] for x in p]), t, lgt0)
        _cmp(mon, ps, (base[0][sub], base[1][sub]), "subset of the population", n=n)
        mon.case("subset", n, len(sub))
        k = int(rng.integers(0, n + 1))
        parts = [diffmah.mah_halopop(dk.DiffmahParams(*[x[s] for x in p]), t, lgt0) for s in (slice(0, k), slice(k, n))]
        cat = [np.concatenate([np.asarray(q[j]) for q in parts]) for j in (0, 1)]
        _cmp(mon, cat, base, "concatenation of two batches", n=n, k=k)
        mon.case("concat", n, k == 0 or k == n)
        # duplicates of one halo inside a population give identical rows
        dup = np.zeros(n, int) + int(rng.integers(n))
        pd = diffmah.mah_halopop(dk.DiffmahParams(*[x[dup] for x in p]), t, lgt0)
        _cmp(mon, pd, (base[0][dup], base[1][dup]), "duplicated halo", n=n)
        # lightcone
        j = rng.integers(0, nt, n)
        lo = np.asarray(diffmah.logmh_at_t_obs(pop, t[j], lgt0))
        mon.check(lo.shape == (n,), "logmh_at_t_obs shape", shape=list(lo.shape))
        mon.check_close(lo, np.asarray(base[1])[np.arange(n), j], 1e-5, "logmh_at_t_obs vs population diagonal", n=n, t=t[j])
        ls = np.asarray(diffmah.logmh_at_t_obs(pop, float(t[0]), lgt0))
        mon.check_close(np.broadcast_to(ls, (n,)), np.asarray(base[1])[:, 0], 1e-5, "scalar t_obs vs population column", n=n)
        mon.case("lightcone", n)
        # unbounded entry points
        u = dk.DiffmahUParams(*[np.asarray(x[0], "f4") + np.float32(rng.uniform(-25, 25)) for x in gen.default_u()[:, None]])
        b = dk.get_bounded_mah_params(u)
        ref_b = diffmah.mah_singlehalo(b, t, lgt0)
        for nm, j in (("_diffmah_kern_u_params", None), ("_log_mah_kern_u_params", 1), ("_dmhdt_kern_u_params", 0)):
            f = priv(dk, nm)
            if f is None:
                mon.skip(f"{nm} not present")
                continue
            got = f(u, t, lgt0)
            if j is None:
                _cmp(mon, got, ref_b, nm, u=u, t=t, lgt0=lgt0)
            else:
                two = [ref_b[0], ref_b[1]]
                two[j] = got
                _cmp(mon, two, ref_b, nm, u=u, t=t, lgt0=lgt0)
            mon.case(nm, nt)
    # empty population, empty time grid
    t = np.linspace(1, 13, 5).astype("f4")
    e = diffmah.mah_halopop(dk.DiffmahParams(*[np.zeros(0, "f4")] * 5), t, np.float32(1.14))
    mon.check(e[0].shape == (0, 5) and e[1].shape == (0, 5), "empty population", shape=list(e[1].shape))
    mon.case("empty")
    # concurrent callers with different inputs: every result must equal the serial one
    jobs = []
    for k in range(24):
        n, nt = shapes[k % 4 + 1]
        p = gen.halos(rng, n)
        t = gen.times(rng, nt, (), 13.8)
        jobs.append((dk.DiffmahParams(*p), t, np.float32(1.14 - 0.02 * (k % 3))))
    serial = [tuple(np.asarray(x) for x in diffmah.mah_halopop(*j)) for j in jobs]
    for rep in range(2 if mon.tier == "quick" else 20):
        out = [None] * len(jobs)
        bar = threading.Barrier(8)
        errs = []

        def work(w):
            try:
                bar.wait()
                order = np.random.default_rng([mon.seed, rep, w]).permutation(len(jobs))
                for k in order:
                    if k % 8 == w or rep % 2:
                        out[k] = tuple(np.asarray(x) for x in diffmah.mah_halopop(*jobs[k]))
            except BaseException as ex:  # reported below
                errs.append(ex)

        th = [threading.Thread(target=work, args=(w,)) for w in range(8)]
        [x.start() for x in th]
        [x.join() for x in th]
        if errs:
            raise errs[0]
        for k, (a, b) in enumerate(zip(out, serial)):
            mon.check(np.array_equal(a[0], b[0], equal_nan=True) and np.array_equal(a[1], b[1], equal_nan=True), "concurrent result equals serial result", job=k)
        mon.seen("concurrent calls compared", len(jobs))
        mon.case("threads", rep)
    mon.sample(rounds=r + 1, shapes=shapes)
    mon.require("result pairs compared", 500)
