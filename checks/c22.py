"""Round-trip, bounds, independence and split/merge monitor of the population parameters.

Every component model (31 bounding pairs, the combined model included) is driven with wandering, saturated,
in-bounds, near-bound and at-bound vectors. Oracles: the float64 logistic map of each field to its own bounds;
the identity of the round trip; response of exactly one output to each single input; names and values after
splitting, merging and selection.
"""
import importlib

import numpy as np

from harness import gen, ref
from harness.env import double, rng_for

RULE = "distinct (component model, field, kind of vector) triples whose mapping was judged"

B = "diffmah.diffmahpop_kernels."
L, S, T = B + "bimod_logm0_kernels.", B + "bimod_logm0_sats.", B + "t_peak_kernels."
TABLE = [
    (T + "tp_pdf_cens_flex", "tp_cens", "DEFAULT_TPCENS", "TPCENS_PBOUNDS"),
    (T + "tp_pdf_cens", "tp_cens", "DEFAULT_TPCENS", "TPCENS_PBOUNDS"),
    (T + "tp_pdf_sats", "tp_sat", "DEFAULT_TP_SATS", "TP_SATS_BOUNDS"),
    (T + "utp_pdf_kernels", "utp", "DEFAULT_UTP", "UTP_PBOUNDS"),
    *[(p + m, "c0", "DEFAULT_LGM0POP_C0", "LGM0POP_C0_BOUNDS") for p in (L, S) for m in ("logm0_c0_early", "logm0_c0_late")],
    *[(p + m, "c1", "DEFAULT_LGM0POP_C1", "LGM0POP_C1_BOUNDS") for p in (L, S) for m in ("logm0_c1_early", "logm0_c1_late")],
    *[(p + m, "m0pop", "DEFAULT_LOGM0POP", "LGM0POP_BOUNDS") for p in (L, S) for m in ("logm0_pop_early", "logm0_pop_late")],
    (L + "logm0_pop_bimod", "m0pop", "DEFAULT_LOGM0POP", "LGM0POP_BOUNDS"),
    (S + "logm0_pop_bimod_sats", "m0pop", "DEFAULT_LOGM0POP", "LGM0POP_BOUNDS"),
    *[(B + m, "logtc", "DEFAULT_LOGTC", "LOGTC_PBOUNDS") for m in ("logtc_bimod", "logtc_early", "logtc_late")],
    *[
        (B + m, "early_index", "DEFAULT_EARLY_INDEX", "EARLY_INDEX_PBOUNDS")
        for m in ("early_index_bimod", "early_index_alpha", "early_index_beta", "early_index_pop")
    ],
    *[
        (B + m, "late_index", "DEFAULT_LATE_INDEX", "LATE_INDEX_PBOUNDS")
        for m in ("late_index_bimod", "late_index_alpha", "late_index_beta")
    ],
    (B + "frac_early_cens", "fec", "DEFAULT_FEC", "FEC_PBOUNDS"),
    (B + "covariance_kernels", "cov", "DEFAULT_COV", "COV_PBOUNDS"),
    (B + "ftpt0_cens", "ftpt0", "DEFAULT_FTPT0", "FTPT0_PBOUNDS"),
]


def models():
    from diffmah.diffmahpop_kernels import bimod_censat_params as bcp

    out = []
    for name, stem, default, bounds in TABLE:
        m = importlib.import_module(name)
        out.append(
            (
                name.replace(B, ""),
                getattr(m, f"get_bounded_{stem}_params"),
                getattr(m, f"get_unbounded_{stem}_params"),
                getattr(m, default + "_PARAMS"),
                getattr(m, default + "_U_PARAMS"),
                getattr(m, bounds)._asdict(),
            )
        )
    out.append(
        (
            "combined",
            bcp.get_diffmahpop_params_from_u_params,
            bcp.get_diffmahpop_u_params_from_params,
            bcp.DEFAULT_DIFFMAHPOP_PARAMS,
            bcp.DEFAULT_DIFFMAHPOP_U_PARAMS,
            gen.all_bounds(),
        )
    )
    return out


def tup(D, values, kind):
    import jax.numpy as jnp

    conv = {"float": lambda x: float(x), "np": np.float32, "jax": lambda x: jnp.float32(x), "np64": np.float64}[kind]
    return type(D)(*[conv(v) for v in values])


def arr(t):
    return np.array([float(x) for x in t], "f8")


def judge_model(mon, rng, label, bnd, unb, D, DU, bounds, nrep):
    names, unames = list(D._fields), list(DU._fields)
    mon.check(unames == ["u_" + n for n in names], "u_ field names", model=label, names=names, unames=unames)
    n = len(names)
    lo = np.array([float(bounds[k][0]) for k in names])
    hi = np.array([float(bounds[k][1]) for k in names])
    lo4, hi4 = lo.astype("f4").astype("f8"), hi.astype("f4").astype("f8")
    w = hi - lo
    mag = np.maximum(np.abs(lo), np.abs(hi))
    ulp = np.float64(np.finfo("f4").eps)
    mid = 0.5 * (lo + hi)
    mon.check(np.all((arr(D) >= lo4) & (arr(D) <= hi4)), "defaults in bounds", model=label)
    mon.check(
        np.all(np.abs(arr(bnd(DU)) - arr(D)) <= 1e-5 * w + 4 * ulp * mag), "default u_params map to default params", model=label,
        got=arr(bnd(DU)), want=arr(D), names=names,
    )
    kinds = ("float", "np", "jax", "np64")
    for rep in range(nrep):
        kind = kinds[rep % 4]
        scale = [3.0, 30.0, 300.0, 1e4, 1e6, 1e30][rep % 6]
        u = np.asarray(mid + rng.uniform(-1, 1, n) * scale, "f4").astype("f8")
        # --- unbounded -> bounded
        ut = tup(DU, u, kind)
        p = bnd(ut)
        mon.check(tuple(p._fields) == tuple(names), "field names of the bounded tuple", model=label)
        pv = arr(p)
        mon.check(np.isfinite(pv), "bounded values finite", n=n, model=label, u=u, got=pv)
        mon.check((pv >= lo4 - 2 * ulp * mag) & (pv <= hi4 + 2 * ulp * mag), "bounded values in bounds", n=n, model=label, u=u, got=pv, names=names)
        # rounding of k*(u-mid) is multiplied by the slope of the logistic
        want = ref.bound(u, lo, hi)
        du = 4 * ulp * (np.abs(u) + np.abs(mid))
        tol = 8 * ulp * mag + 0.1 * w * 0.25 * du + 4 * ulp * w
        mon.check_close(pv, want, tol, "bounded value is the logistic of its own u", model=label, names=names, u=u)
        for k in names:
            mon.case(label, k, "u", scale)
        if rep < 3:
            with double():
                uw = mid + rng.uniform(-1, 1, n) * [30.0, 120.0, 200.0][rep]
                p8 = arr(bnd(tup(DU, uw, "np64")))
                u8 = arr(unb(tup(D, p8, "np64")))
            w8 = ref.bound(uw, lo, hi)
            mon.check_close(p8, w8, 1e-12 * (mag + w), "bounded value in double precision", model=label, names=names, u=uw)
            y = ref.logistic(0.1 * (uw - mid))
            tol8 = 10 * 1e-14 * (1 + mag / w) / (y * ref.logistic(-0.1 * (uw - mid))) + 1e-9
            ok = tol8 < 0.1
            mon.check_close(u8[ok], uw[ok], tol8[ok], "u -> p -> u is the identity in double precision", model=label, names=[k for k, o in zip(names, ok) if o])
            mon.seen("double-precision roundtrips", int(ok.sum()))
        # --- u -> p -> u where not saturated
        if scale <= 30:
            u2 = arr(unb(p))
            y = (pv - lo) / w
            tolu = 10.0 / np.maximum(y * (1 - y), 1e-12) * (4 * ulp * (1 + mag / w)) + 4 * ulp * (np.abs(mid) + np.abs(u))
            ok = y * (1 - y) > 1e-3
            mon.check(np.abs(u2 - u)[ok] <= tolu[ok], "u -> p -> u is the identity", n=int(ok.sum()), model=label, u=u, got=u2, names=names)
        # --- bounded -> unbounded -> bounded
        v = np.array([float(x) for x in gen.in_bounds_params(rng, type(D), type(D)(*[bounds[k] for k in names]), ["uniform", "edges", "mixed"][rep % 3])])
        if rep % 5 == 4:
            j = rng.integers(n)  # exactly at a bound
            v[j] = (lo4 if rng.random() < 0.5 else hi4)[j]
        q = unb(tup(D, v, kind))
        mon.check(tuple(q._fields) == tuple(unames), "field names of the unbounded tuple", model=label)
        mon.check(~np.isnan(arr(q)), "unbounded values are numbers", n=n, model=label, v=v, got=arr(q), names=names)
        back = arr(bnd(q))
        mon.check_close(back, v, 2e-6 * w + 4 * ulp * mag, "p -> u -> p is the identity", model=label, names=names, v=v, u=arr(q))
        for k in names:
            mon.case(label, k, "p", rep % 5 == 4)
        mon.seen("roundtrips", n)
        # --- each output answers to its own input only, and increases with it
        if rep < 2:
            u = np.asarray(mid + rng.uniform(-15, 15, n), "f4").astype("f8")
            base = arr(bnd(tup(DU, u, "float")))
            for j in range(n) if (n <= 12 or rep == 0) else rng.choice(n, 12, replace=False):
                uj = u.copy()
                step = (5.0 + rng.uniform(0, 10)) * (1 if rep == 0 else -1)
                uj[j] = np.float32(uj[j] + step)
                d = arr(bnd(tup(DU, uj, "float"))) - base
                mon.check(np.sign(d[j]) == np.sign(step), "increases with its own u", model=label, name=names[j], delta=d[j], step=step)
                others = np.delete(d, j)
                mon.check(np.all(np.abs(others) <= 2 * ulp * np.delete(mag, j)), "no cross-talk u -> p", model=label, name=names[j],
                          moved=[names[i] for i in np.flatnonzero(np.abs(d) > 0)])
                mon.seen("crosstalk probes")
            pv = np.asarray(lo + rng.uniform(0.2, 0.7, n) * w, "f4").astype("f8")
            base = arr(unb(tup(D, pv, "float")))
            for j in range(n) if (n <= 12 or rep == 0) else rng.choice(n, 12, replace=False):
                pj = pv.copy()
                pj[j] = np.float32(pj[j] + 0.2 * w[j])
                d = arr(unb(tup(D, pj, "float"))) - base
                mon.check(d[j] > 0, "inverse increases with its own p", model=label, name=names[j], delta=d[j])
                mon.check(np.all(np.abs(np.delete(d, j)) <= 1e-5), "no cross-talk p -> u", model=label, name=names[j],
                          moved=[names[i] for i in np.flatnonzero(np.abs(d) > 0)])
                mon.seen("crosstalk probes")
    # --- large |u| stays monotone: a ladder for all fields together
    ladder = np.concatenate([-(10.0 ** np.linspace(3, 1, 5)), np.linspace(-9, 9, 7), 10.0 ** np.linspace(1, 3, 5)])
    P = np.array([arr(bnd(tup(DU, (mid + x).astype("f4"), "float"))) for x in ladder])
    mon.check(np.diff(P, axis=0) >= -2 * ulp * mag, "non-decreasing along a ladder of u", n=P.size, model=label)
    mon.check(np.all(np.abs(P[0] - lo) < 1e-3 * w) and np.all(np.abs(P[-1] - hi) < 1e-3 * w), "reaches both bounds", model=label)


def judge_split(mon, rng, nrep):
    from diffmah.diffmahpop_kernels import bimod_censat_params as bcp

    D, DU = bcp.DEFAULT_DIFFMAHPOP_PARAMS, bcp.DEFAULT_DIFFMAHPOP_U_PARAMS
    pieces = gen.pop_pieces()
    all_names = [f for _, PC, _ in pieces for f in PC._fields]
    mon.check(len(set(all_names)) == len(all_names), "component field names are distinct", names=all_names)
    mon.check(set(all_names) == set(D._fields), "combined fields are the union of the component fields",
              diff=sorted(set(all_names) ^ set(D._fields)))
    for rep in range(nrep):
        p, mode = gen.pop_params(rng)
        vals = {k: np.float32(rng.normal()) if rep % 2 else np.float32(v) for k, v in p._asdict().items()}
        p = type(D)(**vals)
        comps = bcp.get_component_model_params(p)
        mon.check(len(comps) == 9, "number of components", got=len(comps))
        merged = {}
        for c, (_, PC, _) in zip(comps, pieces):
            mon.check(tuple(c._fields) == tuple(PC._fields), "component fields in documented order", got=c._fields, want=PC._fields)
            for k, v in c._asdict().items():
                mon.check(np.float32(v) == vals[k], "split keeps each value under its name", name=k, got=float(v), want=float(vals[k]))
                merged[k] = v
        mon.check(set(merged) == set(D._fields), "nothing lost in the split", missing=sorted(set(D._fields) - set(merged)))
        uvals = {k: np.float32(rng.normal() * 10) for k in DU._fields}
        ucomps = bcp.get_component_model_u_params(type(DU)(**uvals))
        for c in ucomps:
            for k, v in c._asdict().items():
                mon.check(np.float32(v) == uvals[k], "u split keeps each value under its name", name=k, got=float(v), want=float(uvals[k]))
        mon.check(sum(len(c._fields) for c in ucomps) == len(DU._fields), "nothing lost in the u split")
        # varied / excluded
        names = list(D._fields)
        kinds = rng.integers(0, 4)
        excl = {0: [], 1: list(rng.choice(names, 5, replace=False)), 2: list(rng.choice(names, len(names) - 1, replace=False)), 3: [names[0], names[-1]]}[int(kinds)]
        excl = [str(x) for x in excl]
        excl = [excl, tuple(excl), set(excl)][rep % 3]
        varied = bcp.get_varied_params_by_exclusion(p, excl)
        want = [k for k in names if k not in excl]
        mon.check(list(varied._fields) == want, "selection keeps exactly the non-excluded names, in order", got=varied._fields, excluded=sorted(excl))
        mon.check(all(np.float32(getattr(varied, k)) == vals[k] for k in want), "selection keeps the values", excluded=sorted(excl))
        base, _ = gen.pop_params(rng)
        f = bcp._get_all_diffmahpop_params_from_varied
        full = f(varied, base)
        for k in names:
            w = vals[k] if k in want else np.float32(getattr(base, k))
            mon.check(np.float32(getattr(full, k)) == w, "merge: varied values replace, the others come from the defaults given", name=k, got=float(getattr(full, k)), want=float(w))
        full = f(varied)
        for k in names:
            w = vals[k] if k in want else np.float32(getattr(D, k))
            mon.check(np.float32(getattr(full, k)) == w, "merge: others come from the model defaults", name=k, got=float(getattr(full, k)), want=float(w))
        uv = bcp.get_varied_params_by_exclusion(type(DU)(**uvals), ["u_" + k for k in excl])
        mon.check([k for k in DU._fields if k[2:] not in excl] == list(uv._fields), "u selection")
        mon.check(all(np.float32(getattr(uv, k)) == uvals[k] for k in uv._fields), "u selection keeps the values")
        mon.seen("splits")
        mon.case("split", int(kinds), rep % 3, rep % 2)


def judge_agree(mon, rng, MODELS, nrep):
    """A field that several models share (branch, bimodal, combined) is mapped the same way by all of them."""
    from diffmah.diffmahpop_kernels import bimod_censat_params as bcp

    combined = MODELS[-1]
    shared = {m[0]: m for m in MODELS}
    part_of = {
        "bimod_logm0_kernels.": "cens", "bimod_logm0_sats.": "sats", "logtc_": "x", "late_index_": "x", "early_index_": "x",
        "t_peak_kernels.tp_pdf_cens_flex": "x", "t_peak_kernels.tp_pdf_sats": "x", "frac_early": "x", "covariance": "x",
    }
    for rep in range(nrep):
        u = {k: np.float32(rng.uniform(-40, 40)) for k in bcp.DEFAULT_DIFFMAHPOP_U_PARAMS._fields}
        full = combined[1](bcp.DiffmahPop_UParams(**u))._asdict()
        for label, m in shared.items():
            if label == "combined" or not any(label.startswith(x) for x in part_of):
                continue
            if not set(m[4]._fields) <= set(u):
                continue
            p = m[1](type(m[4])(**{k: u[k] for k in m[4]._fields}))
            for k, v in p._asdict().items():
                a, b = float(v), float(full[k])
                mon.check(abs(a - b) <= 1e-6 * max(1.0, abs(b)), "component and combined mapping agree", model=label, name=k, got=a, want=b)
            mon.seen("agreements", len(p))
            mon.case("agree", label)


def body(mon):
    quick = mon.tier == "quick"
    MODELS = models()
    for i, m in enumerate(MODELS):
        if not mon.more():
            break
        rng = rng_for(mon, m[0])
        mon.context = [m[0]]
        judge_model(mon, rng, *m, nrep=(12 if quick else 240) if m[0] != "combined" else (12 if quick else 60))
    mon.context = []
    judge_split(mon, rng_for(mon, "split"), 12 if quick else 200)
    judge_agree(mon, rng_for(mon, "agree"), MODELS, 4 if quick else 60)
    mon.require("roundtrips", 500)
    mon.require("crosstalk probes", 200)
    mon.require("agreements", 100)
