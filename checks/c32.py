"""Differential monitor of the array utilities against their definitions in float64.

Every result is compared with a loop written from the definition; relations (tilings, inverses, limits) are
judged on the returned values. Points that lie on a trimming percentile to within rounding may be in or out.
"""
import itertools
import warnings

import numpy as np

from harness import ref
from harness.env import double, priv, rng_for

RULE = "distinct (utility, size, input class) cases judged"
ASSUMPTIONS = ["where a trimming percentile falls on a data point to within rounding, that order statistic may be in or out (not at p_trim=0)"]


def f8(x):
    return np.asarray(x, "f8")


def dt_array(mon, rng, u):
    n = int(rng.choice([2, 3, 5, 50, 400]))
    kind = ["uniform", "random", "log", "clustered", "integers"][int(rng.integers(5))]
    if kind == "uniform":
        t = np.linspace(rng.uniform(0.1, 1), rng.uniform(10, 14), n)
    elif kind == "random":
        t = np.sort(rng.uniform(0.1, 14, n)) + np.arange(n) * 1e-4
    elif kind == "log":
        t = np.logspace(-2, 1.14, n)
    elif kind == "integers":
        t = np.cumsum(rng.integers(1, 5, n))
    else:
        t = np.cumsum(rng.choice([1e-3, 1.0], n))
    if rng.random() < 0.3 and kind != "integers":
        t = t.astype("f4")
    before = t.copy()
    dt = f8(u.get_dt_array(t))
    W = dict(n_times=n, kind=kind)
    t8 = f8(t)
    eps = (1e-12 if t.dtype != np.float32 else 5e-6) * t8[-1] + 1e-12
    mon.check(dt.shape == (n,), "one width per time", got=dt.shape, **W)
    mon.check(np.array_equal(before, t), "times are not modified", **W)
    mon.check(dt > 0, "widths are positive", **W)
    lo = t8[0] - 0.5 * (t8[1] - t8[0])
    edges = lo + np.concatenate([[0.0], np.cumsum(dt)])
    mon.check_close(edges[1:-1], 0.5 * (t8[1:] + t8[:-1]), eps * 3, "edges are midway between samples", **W)
    last = t8[-1] - t8[-2]
    top = t8[-1] + 0.5 * max(last, dt[-2])
    mon.check(edges[-1] > t8[-1] - eps and edges[-1] <= top + 3 * eps, "the last interval contains the last time", edge=edges[-1], last=t8[-1], **W)
    if kind == "uniform":
        mon.check_close(dt, t8[1] - t8[0], eps * 3, "equally spaced times have equal widths", **W)
    mon.case("dt", n, kind)
    mon.seen("utility calls")


def cholesky(mon, rng, u):
    n = int(rng.integers(1, 11))
    npar = n * (n + 1) // 2
    kind = ["distinct", "random", "integers"][int(rng.integers(3))]
    p = {"distinct": np.arange(1, npar + 1, dtype="f4"), "random": rng.normal(0, 10, npar).astype("f4"), "integers": np.arange(1, npar + 1)}[kind]
    want = np.zeros((n, n))
    k = n
    for i in range(n):
        want[i, i] = p[i]
        for j in range(i):
            want[i, j] = p[k]
            k += 1
    import jax.numpy as jnp

    got = f8(u.get_cholesky_from_params(jnp.array(p)))
    mon.check(got.shape == (n, n) and np.array_equal(got, want), "diagonal first, then row order below it, zero above", got=got, want=want, kind=kind, dim=n)
    mon.case("cholesky", n, kind)
    mon.seen("utility calls")


def correlations(mon, rng, u):
    n = int(rng.integers(1, 9))
    kind = ["random", "diagonal", "sparse", "near singular", "zero variance"][int(rng.integers(5))]
    A = rng.normal(size=(n, n + 2))
    if kind == "near singular" and n > 1:
        A[1] = A[0] + 1e-3 * A[1]
    c = A @ A.T
    d = np.sqrt(np.diag(c))
    corr = c / np.outer(d, d)
    if kind == "diagonal":
        corr = np.eye(n)
    if kind == "sparse":
        z = np.triu(rng.random((n, n)) < 0.4, 1)
        corr = np.where(z | z.T, 0.0, corr)
    sig = 10 ** (rng.uniform(-3, 3, n) if rng.random() < 0.5 else rng.uniform(-9, 9, n))
    if kind == "zero variance":
        sig[int(rng.integers(n))] = 0.0
    corr4, sig4 = corr.astype("f4"), sig.astype("f4")
    cov = f8(u.covariance_from_correlation(corr4, sig4))
    want = np.array([[f8(corr4)[i, j] * f8(sig4)[i] * f8(sig4)[j] for j in range(n)] for i in range(n)])
    W = dict(dim=n, kind=kind, corr=corr4, evals=sig4)
    mon.check_close(cov, want, 3e-6 * np.abs(want), "covariance from correlation", **W)
    back = f8(u.correlation_from_covariance(np.asarray(cov, "f4")))
    pos = np.outer(sig4, sig4) > 0
    mon.check_close(np.where(pos, back, 0), np.where(pos, f8(corr4), 0), 5e-6, "the correlation comes back from its covariance", **W)
    mon.check(np.isfinite(back), "correlations are finite", **W)
    mon.check_close(np.where(pos, 0, back), 0.0, 0.0, "variables without variance are uncorrelated", **W)
    # the other way round
    c4 = (c * np.outer(d**-1, d**-1) * np.outer(np.where(sig > 0, sig, 0.1), np.where(sig > 0, sig, 0.1))).astype("f4")
    r = f8(u.correlation_from_covariance(c4))
    s = np.sqrt(np.diag(f8(c4)))
    mon.check_close(r, f8(c4) / np.outer(s, s), 5e-6, "correlation from covariance", dim=n, kind=kind, cov=c4)
    mon.check_close(f8(u.covariance_from_correlation(r.astype("f4"), s.astype("f4"))), f8(c4), 1e-5 * np.outer(s, s), "the covariance comes back from its correlation", dim=n, kind=kind)
    mon.case("covariance", n, kind)
    mon.seen("utility calls", 4)


def trimmed(mon, rng, u):
    n = int(rng.choice([1, 2, 3, 5, 10, 11, 21, 100, 101, 500]))
    kind = ["normal", "constant", "ties", "outliers", "integers", "far from zero"][int(rng.integers(6))]
    x = rng.normal(0, 1, n)
    if kind == "constant":
        x = np.full(n, rng.choice([0.0, 3.7, -12.25]))
    elif kind == "ties":
        x = rng.choice(x, n)
    elif kind == "outliers":
        x[rng.random(n) < 0.05] += 1e3
    elif kind == "integers":
        x = rng.integers(-5, 5, n).astype(float)
    elif kind == "far from zero":
        x = 12 + 0.3 * x
    p = float(rng.choice([0.0, 0.01, 0.05, 0.1, 0.2, 0.25, 0.33, 0.45]))
    x4 = x.astype("f4")
    x8 = f8(x4)
    scale = max(np.abs(x8).max(), 1e-30)
    srt = np.sort(x8)
    # points at or above the lower percentile are those from the next order statistic on; an index that is
    # an integer to within rounding may fall on either side
    v, d = p * (n - 1), 1e-6 * n if p else 0.0
    choices = []
    for lo, hi in itertools.product({int(np.ceil(v - d)), int(np.ceil(v + d))}, {int(np.floor(n - 1 - v - d)), int(np.floor(n - 1 - v + d))}):
        lo, hi = np.clip([lo, hi], 0, n - 1)
        choices.append((x8 >= srt[lo]) & (x8 <= srt[hi]))
    if not all(m.any() for m in choices):
        return  # nothing need be left
    W = dict(size=n, kind=kind, p_trim=p)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        mu = float(u.trimmed_mean(x4, p))
        mu2, var = [float(v) for v in u.trimmed_mean_and_variance(x4, p)]

    def close(v, w, s):
        return abs(v - w) <= 3e-6 * s + 1e-30

    means = [x8[m].mean() for m in choices]
    mon.check(any(close(mu, w, scale) for w in means), "trimmed mean", got=mu, want=means, **W)
    mon.check(close(mu, mu2, scale), "both functions give the same mean", got=mu2, want=mu, **W)
    ok = [m for m in choices if m.sum() > 1]
    if ok and len(ok) == len(choices):
        want = [x8[m].var(ddof=1) for m in ok]
        got = [v for v in want if abs(var - v) <= 2e-4 * v + (1e-6 * scale) ** 2 * 10]
        mon.check(bool(got), "trimmed variance", got=var, want=want, **W)
        mon.seen("variances")
    mon.case("trimmed", n, kind, p)
    mon.seen("utility calls", 2)


def sigmoids(mon, rng, sig, inv, slope):
    n = 64
    x0, k = rng.uniform(-5, 15, n).astype("f4"), (rng.choice([-1, 1], n) * 10 ** rng.uniform(-1.5, 1, n)).astype("f4")
    ylo, yhi = rng.uniform(-5, 5, n).astype("f4"), rng.uniform(-5, 5, n).astype("f4")
    yhi = np.where(np.abs(yhi - ylo) < 0.1, ylo + np.float32(0.5), yhi)
    x = (x0 + rng.uniform(-6, 6, n) / k).astype("f4")
    W = dict(x0=x0, k=k, ylo=ylo, yhi=yhi)
    y = f8(sig(x, x0, k, ylo, yhi))
    want = ref.sigmoid(f8(x), f8(x0), f8(k), f8(ylo), f8(yhi))
    amp = np.abs(f8(yhi) - f8(ylo))
    tol = 2e-6 * amp + 1e-6 + 0.25 * amp * np.abs(k) * (np.abs(x) + np.abs(x0)) * 2e-7
    mon.check_close(y, want, tol, "sigmoid", **W)
    mon.check((y >= np.minimum(ylo, yhi) - 1e-6) & (y <= np.maximum(ylo, yhi) + 1e-6), "sigmoid stays between its limits", **W)
    for far, lim in ((np.float32(1e4), np.where(k > 0, yhi, ylo)), (np.float32(-1e4), np.where(k > 0, ylo, yhi)), (np.float32(3e30), np.where(k > 0, yhi, ylo)), (np.float32(-3e30), np.where(k > 0, ylo, yhi))):
        mon.check_close(f8(sig(far, x0, k, ylo, yhi)), f8(lim), 2e-6 * amp + 1e-6, "sigmoid approaches its limits", **W)
    mon.check_close(f8(sig(x0, x0, k, ylo, yhi)), 0.5 * (f8(ylo) + f8(yhi)), 1e-6 * (1 + amp), "sigmoid is half way at its center", **W)
    # scalars broadcast
    s = f8(sig(x, float(x0[0]), float(k[0]), float(ylo[0]), float(yhi[0])))
    tol0 = 2e-6 * amp[0] + 1e-6 + 0.25 * amp[0] * abs(k[0]) * (np.abs(x) + abs(x0[0])) * 2e-7
    mon.check_close(s, ref.sigmoid(f8(x), *[float(v[0]) for v in (x0, k, ylo, yhi)]), tol0, "sigmoid with scalar parameters", **W)
    # inverse: in float32 y resolves x where the slope is not too small
    f = rng.uniform(0.01, 0.99, n)
    d = 10 ** rng.uniform(-5, -2, n)  # near the limits
    f = np.where(rng.random(n) < 0.4, np.where(rng.random(n) < 0.5, d, 1 - d), f)
    y = (f8(ylo) + f * (f8(yhi) - f8(ylo))).astype("f4")
    fr = (f8(y) - f8(ylo)) / (f8(yhi) - f8(ylo))
    with np.errstate(all="ignore"):
        rel = 4e-7 * (np.abs(f8(y)) + np.abs(f8(ylo)) + np.abs(f8(yhi))) / amp / (fr * (1 - fr))
        ok = (fr > 0) & (fr < 1) & (rel < 0.03)  # y resolves x in single precision
        got = f8(inv(y, x0, k, ylo, yhi))
        want = f8(x0) + np.log(fr / (1 - fr)) / f8(k)
    err = (rel + 1e-6) / np.abs(f8(k)) + 3e-7 * np.abs(f8(x0))
    mon.seen("inverses near a limit", int((ok & ((fr < 0.005) | (fr > 0.995))).sum()))
    mon.check_close(got[ok], want[ok], 2 * err[ok], "inverse sigmoid", **W)
    back = f8(sig(got.astype("f4"), x0, k, ylo, yhi))
    tolb = 5e-6 * (1 + amp + np.abs(f8(ylo))) + 0.25 * amp * np.abs(k) * (err * 2 + (np.abs(got) + np.abs(x0)) * 2e-7)
    mon.check_close(back[ok], f8(y)[ok], tolb[ok], "the sigmoid inverts its inverse", **W)
    # line with a sigmoid slope
    xtp, ytp = rng.uniform(10, 15, n).astype("f4"), rng.uniform(-2, 2, n).astype("f4")
    got = f8(slope(x, xtp, ytp, x0, k, ylo, yhi))
    want = ref.sig_slope(f8(x), f8(xtp), f8(ytp), f8(x0), f8(k), f8(ylo), f8(yhi))
    mon.check_close(got, want, tol * np.abs(f8(x) - f8(xtp)) + 1e-6 * (1 + np.abs(want) + np.abs(f8(x)) + np.abs(f8(xtp))) * (1 + np.abs(f8(ylo)) + np.abs(f8(yhi))), "line with sigmoid slope", **W)
    mon.seen("sigmoid values", 8 * n)
    mon.case("sigmoid", int(rng.integers(10**6)))


def precise(mon, rng, u, sig, inv, slope):
    """The same utilities in double precision, far closer to the limits than single precision resolves."""
    with double():
        n = 64
        x0, k = rng.uniform(-5, 15, n), rng.choice([-1, 1], n) * 10 ** rng.uniform(-1.5, 1, n)
        ylo, yhi = rng.uniform(-5, 5, n), rng.uniform(-5, 5, n)
        yhi = np.where(np.abs(yhi - ylo) < 0.1, ylo + 0.5, yhi)
        W = dict(x0=x0, k=k, ylo=ylo, yhi=yhi)
        x = x0 + rng.uniform(-16, 16, n) / k
        if sig is not None and inv is not None and slope is not None:
            want = ref.sigmoid(x, x0, k, ylo, yhi)
            mon.check_close(f8(sig(x, x0, k, ylo, yhi)), want, 1e-12, "double-precision sigmoid", **W)
            back = f8(inv(want, x0, k, ylo, yhi))
            s = ref.logistic(k * (x - x0))
            tol = 1e-14 * (np.abs(ylo) + np.abs(yhi) + 1) / np.abs(yhi - ylo) / (s * ref.logistic(-k * (x - x0))) / np.abs(k) + 1e-10
            mon.check_close(back, x, tol, "double-precision inverse of the sigmoid", **W)
            xtp, ytp = rng.uniform(10, 15, n), rng.uniform(-2, 2, n)
            mon.check_close(f8(slope(x, xtp, ytp, x0, k, ylo, yhi)), ref.sig_slope(x, xtp, ytp, x0, k, ylo, yhi), 1e-9 * (1 + np.abs(x)), "double-precision line with sigmoid slope", **W)
        m = int(rng.choice([2, 4, 7]))
        A = rng.normal(size=(m, m + 2))
        c = A @ A.T
        d = np.sqrt(np.diag(c))
        r = c / np.outer(d, d)
        mon.check_close(f8(u.correlation_from_covariance(c)), r, 1e-12, "double-precision correlation", cov=c)
        mon.check_close(f8(u.covariance_from_correlation(r, d)), c, 1e-11 * np.outer(d, d), "double-precision covariance", cov=c)
        import jax.numpy as jnp

        q = rng.normal(size=m * (m + 1) // 2)
        L = f8(u.get_cholesky_from_params(jnp.array(q)))
        mon.check_close(np.sort(L[np.tril_indices(m)]), np.sort(q), 0.0, "double-precision Cholesky entries", params=q)
        z = rng.normal(12, 1, 101)
        srt = np.sort(z)
        mu, var = [float(v) for v in u.trimmed_mean_and_variance(z, 0.055)]
        keep = srt[6:95]
        mon.check_close([mu, var, float(u.trimmed_mean(z, 0.055))], [keep.mean(), keep.var(ddof=1), keep.mean()], 1e-11, "double-precision trimmed moments", x=z)
    mon.seen("double-precision rounds")
    mon.case("double", m)


def broadcast(mon, rng, u):
    import jax.numpy as jnp

    n = int(rng.choice([1, 2, 7]))
    args, want = [], []
    for _ in range(int(rng.integers(1, 6))):
        kind = ["float", "int", "np0", "array", "iarray", "one", "jax"][int(rng.integers(7))]
        v = rng.normal(0, 10, n).astype("f4")
        iv = rng.integers(-9, 9, n)
        a, w, k = {
            "float": (float(v[0]), np.full(n, v[0]), "f"), "int": (int(iv[0]), np.full(n, iv[0]), "i"), "np0": (np.float32(v[0]), np.full(n, v[0]), "f"),
            "array": (v, v, "f"), "iarray": (iv, iv, "i"), "one": (v[:1], np.full(n, v[0]), "f"), "jax": (jnp.array(v), v, "f"),
        }[kind]
        args.append(a)
        want.append((w, k))
    sizes = [np.size(a) for a in args]
    m = max(sizes)
    for ja in (False, True):
        got = u.get_1d_arrays(*args, jax_arrays=ja) if ja or rng.random() < 0.5 else u.get_1d_arrays(*args)
        mon.check(len(got) == len(args), "one array per argument", got=len(got))
        for g, (w, k) in zip(got, want):
            g = np.asarray(g)
            mon.check(g.shape == (m,) and np.array_equal(f8(g), f8(w[:m])), "scalars and arrays keep their values", got=g, want=w[:m], sizes=sizes)
            mon.check(g.dtype.kind == k, "kind of number is kept", got=str(g.dtype), want=k)
    mon.case("1d arrays", m, len(args))
    mon.seen("utility calls")
    if m > 2:
        try:
            u.get_1d_arrays(np.zeros(m), np.zeros(m - 1))
            mon.check(False, "arrays of different lengths are refused")
        except AssertionError:
            mon.seen("refused")


def body(mon):
    from diffmah import utils as u

    quick = mon.tier == "quick"
    sig, inv, slope = priv(u, "_sigmoid"), priv(u, "_inverse_sigmoid"), priv(u, "_sig_slope")
    rng = rng_for(mon)
    for rep in range(250 if quick else 12000):
        if rep > 50 and not mon.more():
            break
        mon.context = [dict(rep=rep)]
        dt_array(mon, rng, u)
        cholesky(mon, rng, u)
        correlations(mon, rng, u)
        trimmed(mon, rng, u)
        trimmed(mon, rng, u)
        if rep % 3 == 0:
            precise(mon, rng, u, sig, inv, slope)
        if sig is not None and inv is not None and slope is not None:
            sigmoids(mon, rng, sig, inv, slope)
        broadcast(mon, rng, u)
    mon.context = []
    mon.require("utility calls", 1000)
    mon.require("variances", 100)
