"""Shared judge of one call of the fitter."""
import warnings

import numpy as np

from . import ref

NAMES = ref.MAH_FIELDS


def run(t, m, **kw):
    from diffmah import diffmah_fitter

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return diffmah_fitter(t, m, **kw)


def describe(t, m, kw):
    return dict(t=np.asarray(t), mah=np.asarray(m), dtype=str(m.dtype), options=kw)


def params(res):
    return np.array([float(getattr(res.p_best, k)) for k in NAMES])


def tpeak_window(t, m, lgm_min=-np.inf):
    """first time the history equals its final value: in single precision and in double precision"""
    floor = 10.0**lgm_min
    with np.errstate(divide="ignore"):
        lg = np.where(m <= floor, -99.0, np.log10(np.where(m <= floor, 1.0, m.astype("f8"))))
    first64 = int(np.argmax(lg == lg[-1]))
    close = np.abs(lg - lg[-1]) <= 2.5e-6
    first32 = int(np.argmax(close))
    return t[first32], t[first64]


def judge_success(mon, res, t, m, kw, W):
    """Everything the fitter reports about a fit that ran."""
    p = params(res)
    mon.check(np.all(np.isfinite(p)), "best-fit parameters finite", n=5, p=p, **W)
    for v, (k, (lo, hi)) in zip(p, ref.MAH_BOUNDS.items()):
        s = 1e-6 * (hi - lo)
        mon.check(lo - s <= v <= hi + s, f"best-fit {k} inside bounds", p=p, **W)
    mon.check(p[3] <= p[2] + 2e-6, "late index does not exceed early index", p=p, **W)
    ld = res.loss_data
    tt, lt = np.asarray(ld.t_target, "f8"), np.asarray(ld.log_mah_target, "f8")
    mon.check(tt.shape == lt.shape and tt.ndim == 1, "target arrays have one entry per snapshot", shapes=[list(tt.shape), list(lt.shape)], **W)
    pred = ref.log_mah(p, tt, float(ld.logt0))
    L = float(np.mean((pred - lt) ** 2))
    mon.check_close(float(res.loss_best), L, 1.5e-4 * np.sqrt(L) + 5e-9 + 1e-4 * L, "reported loss is the mean square at the reported parameters", p=p, **W)
    start = [np.log10(float(m[-1])), *ref.DEFAULT_START, p[4]]
    L0 = float(np.mean((ref.log_mah(start, tt, float(ld.logt0)) - lt) ** 2))
    mon.check(float(res.loss_best) <= L0 * (1 + 1e-3) + 1e-4 * np.sqrt(L0) + 1e-8, "loss not larger than at the default start", loss=float(res.loss_best), start_loss=L0, p=p, **W)
    return L


def judge_target(mon, res_ld, t, m, kw, W):
    o = {k: kw[k] for k in ("lgm_min", "dlogm_cut", "t_fit_min") if k in kw}
    et, el, idx, amb = ref.target(t, m, **o)
    tt, lt = np.asarray(res_ld.t_target, "f8"), np.asarray(res_ld.log_mah_target, "f8")
    if amb:
        mon.seen("targets with a snapshot within rounding of a threshold (not judged)")
        return None
    mon.check(len(tt) == len(et), "number of selected snapshots", got=len(tt), want=len(et), got_t=tt, want_t=et, **W)
    if len(et):
        rt = 3e-6 if np.asarray(t).dtype == np.float32 else 1e-10
        mon.check_close(tt, et, rt * et, "selected snapshot times, in order", **W)
        rl = 3e-6 if m.dtype == np.float32 else 1e-9
        mon.check_close(lt, el, rl, "target is the running maximum of log10 mass over the selection", **W)
    return idx
