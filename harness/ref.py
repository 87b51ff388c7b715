"""Executable specification: independent float64 NumPy model of everything the checks judge.

Constants are written out here on purpose: nothing in this file imports diffmah.
"""
from collections import namedtuple

import numpy as np
from scipy import stats as sst

# ------------------------------------------------------------------ individual halos
MAH_FIELDS = ("logm0", "logtc", "early_index", "late_index", "t_peak")
MAH_BOUNDS = dict(
    logm0=(0.0, 17.0), logtc=(-1.0, 1.0), early_index=(0.1, 10.0), late_index=(0.1, 5.0), t_peak=(0.05, 20.0)
)
MAH_K = 3.5
BOUND_K = 0.1


def f32(x):
    """The value a single-precision API actually receives, as float64."""
    return np.asarray(x, dtype="f4").astype("f8")


def logistic(x):
    x = np.asarray(x, dtype="f8")
    e = np.exp(-np.abs(x))
    return np.where(x >= 0, 1.0 / (1.0 + e), e / (1.0 + e))


def sigmoid(x, x0, k, ylo, yhi):
    return ylo + (yhi - ylo) * logistic(k * (np.asarray(x, "f8") - x0))


def sig_slope(x, xtp, ytp, x0, k, lo, hi):
    return ytp + sigmoid(x, x0, k, lo, hi) * (np.asarray(x, "f8") - xtp)


def bound(u, lo, hi, k=BOUND_K):
    return sigmoid(u, 0.5 * (lo + hi), k, lo, hi)


def unbound(p, lo, hi, k=BOUND_K):
    p = np.asarray(p, "f8")
    return 0.5 * (lo + hi) - np.log((hi - lo) / (p - lo) - 1.0) / k


def law(logm0, logtc, early, late, t, lgt0):
    """The un-quenched rolling power law, float64."""
    lt = np.log10(np.asarray(t, "f8"))
    a = early + (late - early) * logistic(MAH_K * (lt - logtc))
    return a * (lt - lgt0) + logm0


def log_mah(p, t, lgt0):
    """p: 5 arrays broadcastable against t."""
    logm0, logtc, early, late, tp = [np.asarray(x, "f8") for x in p]
    return law(logm0, logtc, early, late, np.minimum(np.asarray(t, "f8"), tp), lgt0)


def dlog_mah_dlogt(p, t, lgt0):
    """slope a + a'(lt-lt0) of the un-quenched law, and a scale for its rounding error"""
    logm0, logtc, early, late = [np.asarray(x, "f8") for x in p[:4]]
    lt = np.log10(np.asarray(t, "f8"))
    s = logistic(MAH_K * (lt - logtc))
    a = early + (late - early) * s
    da = (late - early) * MAH_K * s * (1 - s)
    return a + da * (lt - lgt0), np.abs(a) + np.abs(da * (lt - lgt0))


def dmhdt(p, t, lgt0):
    t = np.asarray(t, "f8")
    m = 10.0 ** law(*p[:4], t, lgt0)
    slope, scale = dlog_mah_dlogt(p, t, lgt0)
    rate = m * slope / t / 1e9
    out = np.where(t > np.asarray(p[4], "f8"), 0.0, rate)
    return out, m * scale / t / 1e9


def bounded_mah(u):
    ul, utc, ue, uL, utp = [np.asarray(x, "f8") for x in u]
    logm0 = bound(ul, *MAH_BOUNDS["logm0"])
    logtc = bound(utc, *MAH_BOUNDS["logtc"])
    late = bound(uL, *MAH_BOUNDS["late_index"])
    early = sigmoid(ue, 0.0, BOUND_K, late, MAH_BOUNDS["early_index"][1])
    tp = bound(utp, *MAH_BOUNDS["t_peak"])
    return logm0, logtc, early, late, tp


def unbounded_mah(p):
    logm0, logtc, early, late, tp = [np.asarray(x, "f8") for x in p]
    ue = -np.log((MAH_BOUNDS["early_index"][1] - late) / (early - late) - 1.0) / BOUND_K
    return (
        unbound(logm0, *MAH_BOUNDS["logm0"]),
        unbound(logtc, *MAH_BOUNDS["logtc"]),
        ue,
        unbound(late, *MAH_BOUNDS["late_index"]),
        unbound(tp, *MAH_BOUNDS["t_peak"]),
    )


# ------------------------------------------------------------------ fitter target
T_FIT_MIN, DLOGM_CUT, NPTS_MIN, NOFIT = 1.0, 2.5, 3, -99.0


# ------------------------------------------------------------------ population means
EPS = 1e-3


class P:
    """float64 view of a parameter tuple (values as the float32 API sees them)."""

    def __init__(self, params):
        for k, v in params._asdict().items():
            setattr(self, k, f32(v))

    def __getitem__(self, k):
        return getattr(self, k)


def _b(branch, sat=False):
    return "_" + branch + ("_sats" if sat else "")


def pred_c0(p, t_obs, t_peak, branch, sat):
    s = _b(branch, sat)
    c0 = sig_slope(t_obs, 15.0, p["lgm0pop_c0_ytp" + s], p["lgm0pop_c0_t_obs_x0" + s], 0.25, p["lgm0pop_c0_ylo" + s], 0.0)
    return np.maximum(c0, p["lgm0pop_c0_clip_c0" + s] + p["lgm0pop_c0_clip_c1" + s] * t_peak)


def pred_c1(p, t_obs, t_peak, branch, sat):
    s = _b(branch, sat)
    c1 = sig_slope(t_obs, 10.0, p["lgm0pop_c1_ytp" + s], p["lgm0pop_c1_t_obs_x0" + s], 0.25, p["lgm0pop_c1_ylo" + s], 0.0)
    clip = sigmoid(t_peak, p["lgm0pop_c1_clip_x0" + s], 1.0, p["lgm0pop_c1_clip_ylo" + s], p["lgm0pop_c1_clip_yhi" + s])
    return np.maximum(c1, clip)


def pred_logm0(p, lgm, t_obs, t_peak, branch, sat):
    v = lgm + pred_c0(p, t_obs, t_peak, branch, sat) + pred_c1(p, t_obs, t_peak, branch, sat) * (lgm - 12.0)
    lo, hi = MAH_BOUNDS["logm0"]
    return np.clip(v, lo + EPS, hi - EPS)


def pred_logtc(p, lgm, t_obs, t_peak, branch):
    s = _b(branch)
    ytp = p["logtc_lgm_c0_tp_ytp_tobs_c0" + s] + p["logtc_lgm_c0_tp_ytp_tobs_c1" + s] * t_obs
    c0 = sig_slope(
        t_peak, 10.0, ytp, p["logtc_c0_ss_x0" + s], 0.5, p["logtc_lgm_c0_tp_ylo" + s], p["logtc_lgm_c0_tp_yhi" + s]
    )
    lo, hi = MAH_BOUNDS["logtc"]
    return np.clip(c0 + p["logtc_lgm_c1" + s] * (lgm - 12.0), lo + EPS, hi - EPS)


def pred_late_index(p, lgm, branch):
    s = {"early": "_alpha", "late": "_beta"}[branch]
    v = sigmoid(lgm, p["late_index_x0" + s], 1.0, p["late_index_ylo" + s], p["late_index_yhi" + s])
    lo, hi = MAH_BOUNDS["late_index"]
    return np.clip(v, lo + EPS, hi - EPS)


def pred_early_index(p, lgm, t_obs, t_peak, branch):
    s = {"early": "_alpha", "late": "_beta", "pop": ""}[branch]
    ylo = sigmoid(t_peak, p["early_index_ylo_x0" + s], 1.0, p["early_index_ylo_ylo" + s], p["early_index_ylo_yhi" + s])
    yhi = sigmoid(t_obs, p["early_index_yhi_x0" + s], 0.5, p["early_index_yhi_ylo" + s], p["early_index_yhi_yhi" + s])
    v = sigmoid(lgm, p["early_index_lgm_x0" + s], 1.0, ylo, yhi)
    lo, hi = MAH_BOUNDS["early_index"]
    return np.clip(v, lo + EPS, hi - EPS)


def frac_early(p, lgm, t_obs):
    ylo = sigmoid(t_obs, p["fec_t_obs_x0"], 1.0, p["fec_lgm_ylo_early"], p["fec_lgm_ylo_late"])
    yhi = sigmoid(t_obs, p["fec_t_obs_x0"], 1.0, p["fec_lgm_yhi_early"], p["fec_lgm_yhi_late"])
    return sigmoid(lgm, p["fec_lgm_x0"], 4.0, ylo, yhi)


def ftpt0(p, lgm, t_obs):
    c0 = np.clip(p["ftpt0_c0_c0"] + p["ftpt0_c0_c1"] * (t_obs - 10.0), 0.01, 0.99)
    return np.clip(c0 + p["ftpt0_c1"] * (lgm - 12.0), 0.01, 0.99)


# ------------------------------------------------------------------ covariance
COV_ORDER = ("logm0", "logtc", "early", "late")


def cov(p, lgm):
    """(..., 4, 4) covariance of (u_logm0, u_logtc, u_early, u_late)"""
    lgm = np.asarray(lgm, "f8")
    std = np.stack(
        [
            sigmoid(lgm, p["cov_lgm_x0_" + n], 2.0, p[f"std_u_{n}_ylo"], p[f"std_u_{n}_yhi"])
            for n in COV_ORDER
        ],
        axis=-1,
    )
    corr = np.eye(4)
    for i in range(4):
        for j in range(i):
            corr[i, j] = corr[j, i] = p[f"rho_{COV_ORDER[i]}_{COV_ORDER[j]}"]
    return corr * std[..., :, None] * std[..., None, :], std, corr


# ------------------------------------------------------------------ t_peak distributions
def cen_utp_x0(p, lgm, t_obs):
    e = sigmoid(lgm, p["cen_tp_lgm_x0_x0"], 1.0, p["cen_tp_x0_ylo_early"], p["cen_tp_x0_yhi_early"])
    l = sigmoid(lgm, p["cen_tp_lgm_x0_x0"], 1.0, p["cen_tp_x0_ylo_late"], p["cen_tp_x0_yhi_late"])
    return sigmoid(t_obs, p["cen_tp_t_obs_x0_x0"], 2.0, e, l)


def cen_cdf(p, utp, lgm, t_obs):
    return logistic(5.0 * (np.asarray(utp, "f8") - cen_utp_x0(p, lgm, t_obs)))


def cen_draw_cdf(p, utp, lgm, t_obs):
    """CDF of utp = t_peak/t_0 as drawn: mass at 0.05 (floor) and the rest at 1"""
    utp = np.asarray(utp, "f8")
    return np.where(utp < 0.05, 0.0, np.where(utp >= 1.0, 1.0, cen_cdf(p, utp, lgm, t_obs)))


def sat_loc(p, lgm, t_obs):
    ylo = sigmoid(t_obs, p["utp_loc_lgm_ylo_t0"], 0.4, p["utp_loc_lgm_ylo_early"], p["utp_loc_lgm_ylo_late"])
    return sigmoid(lgm, p["utp_loc_lgm_x0"], 1.5, ylo, 0.95)


def sat_scale(p, lgm, t_obs):
    ylo = sigmoid(t_obs, p["utp_scale_lgm_ylo_t0"], 1.0, p["utp_scale_lgm_ylo_early"], p["utp_scale_lgm_ylo_late"])
    return sigmoid(lgm, 12.0, 1.0, ylo, 0.16)


UTP_LO, UTP_HI = 0.1, 1.0


def tn_pdf(x, loc, scale):
    a, b = (UTP_LO - loc) / scale, (UTP_HI - loc) / scale
    return sst.truncnorm.pdf(x, a, b, loc, scale)


def tn_cdf(x, loc, scale):
    a, b = (UTP_LO - loc) / scale, (UTP_HI - loc) / scale
    return sst.truncnorm.cdf(x, a, b, loc, scale)


def tpc_scale(p, lgm, t_obs, t_0):
    s = sigmoid(lgm, 12.5, 2.0, p["tpck_scale_mh_lo"], p["tpck_scale_mh_hi"])
    return s + sigmoid(t_obs, t_0 / 2.0, 1.0, p["tpck_scale_boost_early"], 0.0)


def target(t_sim, mah, lgm_min=-np.inf, dlogm_cut=DLOGM_CUT, t_fit_min=T_FIT_MIN):
    """Expected fitting target. Returns (t, log_mah, selected indices, ambiguous: bool).

    `ambiguous` is set when a snapshot lies within rounding of a mass threshold.
    """
    mah = np.asarray(mah)
    t_sim = np.asarray(t_sim)
    single = mah.dtype == np.float32
    with np.errstate(divide="ignore"):
        lg = np.log10(mah.astype("f8"))
    floor = 10.0 ** lgm_min
    if single:
        floor = float(np.float32(floor))
    cut = lg[-1] - dlogm_cut
    band = 2e-6 if single else 1e-10
    above_floor = mah.astype("f8") > floor
    with np.errstate(invalid="ignore"):
        near = np.abs(lg - cut) < band
        if np.isfinite(lgm_min):
            # equality with the floor itself is decided (excluded); the rounding band around it is not
            near |= (np.abs(lg - lgm_min) < band) & (mah.astype("f8") != floor)
        sel = (lg > cut) & above_floor & (t_sim >= t_fit_min)
    sel_idx = np.flatnonzero(sel)
    return t_sim[sel_idx].astype("f8"), np.maximum.accumulate(lg[sel_idx]), sel_idx, bool(np.any(near & (t_sim >= t_fit_min)))


def n_nontrivial(target_lg, mah_dtype):
    """number of target points strictly below the final one; None when that is a rounding question"""
    if len(target_lg) == 0:
        return 0
    last = target_lg[-1]
    band = 2e-6 if mah_dtype == np.float32 else 1e-12
    d = last - target_lg
    if np.any((d > 0) & (d < band)):
        return None
    return int(np.sum(d > 0))


DEFAULT_START = (0.05, 2.6137643, 0.12692805)
