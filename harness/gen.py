"""Workload generators shared by the checks (all randomness from the rng passed in)."""
import numpy as np

from . import ref

B = ref.MAH_BOUNDS


def _edge_mix(rng, n, lo, hi, p_edge=0.25):
    """Uniform draws mixed with values at and very near either bound, float32-exact."""
    x = rng.uniform(lo, hi, n)
    w = hi - lo
    kind = rng.random(n)
    eps = 10.0 ** rng.uniform(-6, -1, n) * w
    x = np.where(kind < p_edge / 2, lo + eps, x)
    x = np.where((kind >= p_edge / 2) & (kind < p_edge), hi - eps, x)
    x = np.where(kind > 0.99, lo, x)
    x = np.where((kind > 0.98) & (kind <= 0.99), hi, x)
    return np.clip(np.asarray(x, "f4"), np.float32(lo), np.float32(hi))


def halos(rng, n, ordered=True, t0=13.8, typical=False):
    """n in-bounds halos as a list of 5 float32 arrays."""
    if typical:
        u = default_u()[:, None] + rng.uniform(-10, 10, (5, n))
        u[0] = rng.uniform(ref.unbound(10, *B["logm0"]), ref.unbound(15, *B["logm0"]), n)
        p = [np.asarray(x, "f4") for x in ref.bounded_mah(u)]
        p[4] = np.asarray(rng.uniform(1.0, 1.3 * t0, n), "f4")
        return p
    logm0 = _edge_mix(rng, n, *B["logm0"])
    logtc = _edge_mix(rng, n, *B["logtc"])
    late = _edge_mix(rng, n, *B["late_index"])
    early = _edge_mix(rng, n, *B["early_index"])
    if ordered:
        f = rng.random(n)
        f = np.where(rng.random(n) < 0.1, 0.0, f)  # early == late
        early = np.asarray(late + f * (B["early_index"][1] - late), "f4")
        early = np.maximum(early, late)
    tp = _edge_mix(rng, n, *B["t_peak"])
    near = rng.random(n)
    tp = np.where(near < 0.4, rng.uniform(0.3, 1.2 * t0, n), tp)
    tp = np.where(near > 0.97, t0, tp)
    return [logm0, logtc, early, late, np.asarray(tp, "f4")]


def default_u():
    return np.array(ref.unbounded_mah((12.0, 0.05, 2.6137643, 0.12692805, 14.0)))


def halo_row(p, i):
    return [x[i] for x in p]


def times(rng, n, tp=(), t0=13.8, hi=20.0, sort=False):
    """Times in (0, 20] incl. t_peak, its float32 neighbours and t0."""
    t = np.concatenate(
        [10.0 ** rng.uniform(-2, np.log10(hi), n // 2), rng.uniform(0.05, hi, n - n // 2)]
    ).astype("f4")
    tp = np.asarray(tp, "f4").ravel()
    k = 0
    for v in tp[: max(1, n // 6)]:
        for w in (v, np.nextafter(v, np.float32(0)), np.nextafter(v, np.float32(99))):
            if k < n and 0 < w <= hi:
                t[k] = w
                k += 1
    if n > k:
        t[k] = min(np.float32(t0), np.float32(hi))
    rng.shuffle(t)
    if sort:
        t = np.sort(t)
    return t


def lgt0(rng):
    return np.float32(np.log10(rng.choice([13.8, 13.79, 13.47, rng.uniform(5, 20), 20.0, 5.0])))


# ------------------------------------------------------------------ population
def pop_bounds(PBOUNDS):
    b = np.array([list(map(float, x)) for x in PBOUNDS], "f8")
    return b[:, 0], b[:, 1]


def in_bounds_params(rng, Params, PBOUNDS, mode=None, frac=1.0):
    """Random in-bounds tuple; modes: uniform, edges, mixed."""
    lo, hi = pop_bounds(PBOUNDS)
    n = len(lo)
    mode = mode or rng.choice(["uniform", "edges", "mixed"])
    x = rng.uniform(0.02, 0.98, n)
    e = np.where(rng.random(n) < 0.5, 10 ** rng.uniform(-5, -2, n), 1 - 10 ** rng.uniform(-5, -2, n))
    if mode == "edges":
        x = e
    elif mode == "mixed":
        x = np.where(rng.random(n) < 0.3, e, x)
    v = np.asarray(lo + x * (hi - lo), "f4")
    v = np.clip(v, np.asarray(lo, "f4"), np.asarray(hi, "f4"))
    return Params(*[np.float32(z) for z in v])


def pop_pieces():
    """(module, Params cls, bounds) of the components of the combined model."""
    from diffmah.diffmahpop_kernels import (
        covariance_kernels as ck,
        early_index_bimod as ei,
        frac_early_cens as fec,
        late_index_bimod as li,
        logtc_bimod as tc,
    )
    from diffmah.diffmahpop_kernels.bimod_logm0_kernels import logm0_pop_bimod as m0
    from diffmah.diffmahpop_kernels.bimod_logm0_sats import logm0_pop_bimod_sats as m0s
    from diffmah.diffmahpop_kernels.t_peak_kernels import tp_pdf_cens_flex as tpc, tp_pdf_sats as tps

    return [
        (tpc, tpc.TPCens_Params, tpc.TPCENS_PBOUNDS),
        (tps, tps.TP_Sats_Params, tps.TP_SATS_BOUNDS),
        (m0, m0.LGM0Pop_Params, m0.LGM0POP_BOUNDS),
        (m0s, m0s.LGM0Pop_Params, m0s.LGM0POP_BOUNDS),
        (tc, tc.Logtc_Params, tc.LOGTC_PBOUNDS),
        (ei, ei.EarlyIndex_Params, ei.EARLY_INDEX_PBOUNDS),
        (li, li.LateIndex_Params, li.LATE_INDEX_PBOUNDS),
        (fec, fec.FEC_Params, fec.FEC_PBOUNDS),
        (ck, ck.CovParams, ck.COV_PBOUNDS),
    ]


def all_bounds():
    d = {}
    for _, _, b in pop_pieces():
        d.update(b._asdict())
    return d


def pop_params(rng, mode=None):
    from diffmah.diffmahpop_kernels import bimod_censat_params as bcp

    mode = mode or rng.choice(["uniform", "edges", "mixed", "near_default", "default"], p=[0.3, 0.15, 0.25, 0.2, 0.1])
    D = bcp.DEFAULT_DIFFMAHPOP_PARAMS
    if mode == "default":
        return D, mode
    bounds = all_bounds()
    Bn = type(D)(**{k: bounds[k] for k in D._fields})
    if mode == "near_default":
        lo, hi = pop_bounds(Bn)
        d = np.array([float(x) for x in D])
        v = np.clip(d + rng.uniform(-0.1, 0.1, len(d)) * (hi - lo), lo + 1e-3 * (hi - lo), hi - 1e-3 * (hi - lo))
        return type(D)(*[np.float32(z) for z in v]), mode
    return in_bounds_params(rng, type(D), Bn, mode), mode


# ------------------------------------------------------------------ mass histories (linear masses)
HISTORY_KINDS = (
    "model", "noisy", "bursty", "plateau", "truncated", "dips", "powerlaw", "late_start", "early_peak", "jumps",
)


def time_grid(rng, n=None, t0=13.8):
    n = int(n or rng.choice([12, 25, 50, 100, 101, 180]))
    kind = rng.choice(["linear", "log", "irregular"])
    lo = rng.uniform(0.1, 1.2)
    if kind == "linear":
        t = np.linspace(lo, t0, n)
    elif kind == "log":
        t = np.logspace(np.log10(lo), np.log10(t0), n)
    else:
        t = np.sort(rng.uniform(lo, t0, n))
        t[-1] = t0
        t = np.unique(t)
    return np.asarray(t, "f8")


def model_history(rng, t, t_peak=None):
    t0 = t[-1]
    p = halos(rng, 1, typical=True, t0=t0)
    if t_peak is not None:
        p[4] = np.array([t_peak], "f4")
    lgt0 = np.log10(t0)
    row = [float(x[0]) for x in p]
    return 10 ** ref.log_mah(row, t, lgt0), row


def history(rng, kind, t):
    m, _ = model_history(rng, t)
    n = len(t)
    lg = np.log10(m)
    if kind == "noisy":
        lg = lg + rng.normal(0, rng.choice([0.01, 0.1, 0.5]), n)
    elif kind == "bursty":
        lg = lg + np.where(rng.random(n) < 0.1, rng.uniform(-1, 0.5, n), 0)
    elif kind == "plateau":
        i = rng.integers(1, n)
        lg[i:] = lg[i]
        j = rng.integers(0, n)
        k = min(n, j + rng.integers(1, max(2, n // 3)))
        lg[j:k] = lg[j]
        lg = np.maximum.accumulate(lg)
    elif kind == "truncated":
        lg[: rng.integers(1, n)] = -np.inf
    elif kind == "dips":
        for _ in range(3):
            j = rng.integers(0, n)
            lg[j : j + 2] = -np.inf if rng.random() < 0.5 else lg[j] - 2
    elif kind == "powerlaw":
        lg = rng.uniform(10, 15) + rng.uniform(0.2, 6) * np.log10(t / t[-1])
    elif kind == "late_start":
        i = int(n * rng.uniform(0.5, 0.98))
        lg[:i] = -np.inf
    elif kind == "early_peak":
        i = int(n * rng.uniform(0.05, 0.5))
        lg[i:] = lg[i]
    elif kind == "jumps":
        lg = np.minimum(9 + np.cumsum(np.where(rng.random(n) < 0.15, rng.uniform(0, 1, n), 0)), 15.5)
    with np.errstate(all="ignore"):
        mah = 10.0 ** np.minimum(lg, 16.3)
    if not mah[-1] > 1e4:
        mah[-1] = 10 ** rng.uniform(8, 14)
    if rng.random() < 0.8:
        mah = np.maximum.accumulate(mah)
    if rng.random() < 0.3:
        mah = mah.astype("f4")
    return mah
