"""Round-trip, bounds, monotonicity and independence monitor for the individual-halo bounding."""
import numpy as np

from harness import gen, ref
from harness.env import double, rng_for

RULE = "distinct (parameter, regime of the unbounded value, kind of law) combinations judged"
ASSUMPTIONS = ["round-trip tolerance follows the conditioning of the logistic in single precision"]
EPSF = 1.2e-7


def _p_tol(lo, hi):
    # forward map: relative rounding of the logistic and of the affine combination
    return 8 * EPSF * (np.abs(hi) + np.abs(lo) + (hi - lo))


def body(mon):
    from diffmah import diffmah_kernels as dk

    rng = rng_for(mon)
    fields = list(ref.MAH_FIELDS)
    mon.check(list(dk.DiffmahUParams._fields) == ["u_" + f for f in fields], "field order of the unbounded tuple", fields=dk.DiffmahUParams._fields)
    mon.check(
        {k: tuple(map(float, v)) for k, v in dk.MAH_PBOUNDS._asdict().items()} == {k: tuple(map(float, v)) for k, v in ref.MAH_BOUNDS.items()},
        "published bounds",
        got=dk.MAH_PBOUNDS._asdict(),
    )
    n_rounds = 20 if mon.tier == "quick" else 600
    n = 400
    for r in range(n_rounds):
        if r > 4 and not mon.more():
            break
        mon.context = [dict(round=r)]
        scale = [3, 20, 60, 200, 1e3, 1e6][r % 6]
        u = rng.uniform(-scale, scale, (5, n)).astype("f4")
        if scale >= 1e3:
            mix = rng.random((5, n)) < 0.5
            u = np.where(mix, rng.uniform(-30, 30, (5, n)), u).astype("f4")
        b = dk.get_bounded_mah_params(dk.DiffmahUParams(*u))
        B = {k: np.asarray(v).astype("f8") for k, v in b._asdict().items()}
        want = dict(zip(fields, ref.bounded_mah(u.astype("f8"))))
        for k in fields:
            lo, hi = ref.MAH_BOUNDS[k]
            slack = 1e-6 * (hi - lo)
            ok = np.isfinite(B[k]) & (B[k] >= lo - slack) & (B[k] <= hi + slack)
            i = int(np.argmin(ok))
            mon.check(ok, f"{k} inside its bounds", n=n, u=u[:, i], got={q: B[q][i] for q in fields})
            mon.check_close(B[k], want[k], _p_tol(lo, hi), f"{k} = documented logistic of the unbounded value", u=u)
            mon.case(k, "bounded", r % 6)
        mon.check(B["late_index"] <= B["early_index"] + 2e-6, "late index does not exceed early index", n=n, u=u, early=B["early_index"], late=B["late_index"])
        mon.seen("unbounded vectors mapped", n)
        if r % 6 in (0, 1, 2, 5):
            with double():
                b8 = dk.get_bounded_mah_params(dk.DiffmahUParams(*u.astype("f8")))
                for j, k in enumerate(fields):
                    mon.check_close(np.asarray(b8[j]), want[k], 1e-12 * 20 * (1 + 0.1 * np.abs(u[j])), f"{k} = documented logistic in double precision", u=u)
                # and back, as far into saturation as double precision resolves
                s8 = np.clip(u.astype("f8"), -180, 180)
                p8 = dk.get_bounded_mah_params(dk.DiffmahUParams(*s8))
                u8 = dk.get_unbounded_mah_params(p8)
                pr = ref.bounded_mah(s8)
                for j, k in enumerate(fields):
                    lo, hi = ref.MAH_BOUNDS[k]
                    lo = np.full(n, lo) if k != "early_index" else pr[3]
                    s = (pr[j] - lo) / (hi - lo)
                    tol = 10.0 * 1e-14 * (1 + hi) / (hi - lo) / np.maximum(s * (1 - s), 1e-14) + 1e-9
                    good = tol < 0.1
                    mon.check_close(np.asarray(u8[j])[good], s8[j][good], tol[good], f"u_{k} round trip in double precision", u=s8)
                    mon.seen("double-precision round trips", int(good.sum()))
        # monotone in own u, and no cross-talk
        for j, k in enumerate(fields):
            du = np.zeros((5, n), "f4")
            du[j] = np.abs(rng.uniform(0.1, 40, n)) * (1 if r % 2 else 0.05 * max(1, scale) ** 0.5)
            b2 = dk.get_bounded_mah_params(dk.DiffmahUParams(*(u + du)))
            B2 = {q: np.asarray(v).astype("f8") for q, v in b2._asdict().items()}
            lo, hi = ref.MAH_BOUNDS[k]
            mon.check(B2[k] >= B[k] - _p_tol(lo, hi), f"{k} increases with its unbounded parameter", n=n, u=u, du=du[j], before=B[k], after=B2[k])
            moved = (ref.bounded_mah((u + du).astype("f8"))[j] - want[k]) > 4 * _p_tol(lo, hi)
            mon.check((B2[k] > B[k])[moved], f"{k} responds to its unbounded parameter", n=moved.sum(), u=u, du=du[j])
            for q in fields:
                if q == k or (k == "late_index" and q == "early_index"):
                    continue
                mon.check(np.abs(B2[q] - B[q]) <= 2 * EPSF * (1 + np.abs(B[q])), f"{q} independent of u_{k}", n=n, u=u)
            mon.case(k, "monotone", r % 6)
        # u -> p -> u identity where not saturated
        us = (gen.default_u()[:, None] + rng.uniform(-35, 35, (5, n))).astype("f4")
        mids = np.array([8.5, 0.0, 0.0, 2.55, 10.025])[:, None]
        us = np.clip(us, mids - 60, mids + 60).astype("f4")
        p = dk.get_bounded_mah_params(dk.DiffmahUParams(*us))
        u2 = dk.get_unbounded_mah_params(p)
        pr = ref.bounded_mah(us.astype("f8"))
        for j, k in enumerate(fields):
            lo, hi = ref.MAH_BOUNDS[k]
            lo = np.full(n, lo) if k != "early_index" else pr[3]
            s = (pr[j] - lo) / (hi - lo)
            # du/dp * (float32 error in p, and in the bound lo for early_index)
            perr = 6 * EPSF * (hi + np.abs(lo)) + 4 * EPSF
            tol = 10.0 / (hi - lo) / np.maximum(s * (1 - s), 1e-9) * perr + 1e-4
            good = tol < 5
            got = np.asarray(getattr(u2, "u_" + k)).astype("f8")
            mon.check_close(got[good], us[j].astype("f8")[good], 4 * tol[good], f"u_{k} round trip", u=us)
            mon.seen("unbounded round trips", int(good.sum()))
            mon.case(k, "u-roundtrip", r % 6)
        # p -> u -> p identity in bounds, including near the bounds
        q = gen.halos(rng, n, ordered=True)
        gap = 1e-4
        early = np.maximum(q[2].astype("f8"), q[3] + gap * 2)
        q = [
            np.clip(q[0], 17 * 1e-4, 17 * (1 - 1e-4)),
            np.clip(q[1], -1 + 2e-4, 1 - 2e-4),
            np.clip(early, None, 10 - 1e-3),
            np.clip(q[3], 0.1 + 5e-4, 5 - 5e-4),
            np.clip(q[4], 0.05 + 2e-3, 20 - 2e-3),
        ]
        q[2] = np.maximum(q[2], q[3] + 2 * gap)
        q = [np.asarray(x, "f4") for x in q]
        uu = dk.get_unbounded_mah_params(dk.DiffmahParams(*q))
        p2 = dk.get_bounded_mah_params(uu)
        for j, k in enumerate(fields):
            lo, hi = ref.MAH_BOUNDS[k]
            mon.check(np.isfinite(np.asarray(uu[j])), f"u_{k} finite for in-bounds parameters", n=n, p=q)
            mon.check_close(np.asarray(p2[j]), q[j].astype("f8"), 3e-6 * (hi - lo) + 2e-6 * hi, f"{k} round trip from bounded", p=q)
            mon.case(k, "p-roundtrip", r % 6)
        mon.seen("bounded round trips", n)
        # scalars agree with arrays
        i = int(rng.integers(n))
        bs = dk.get_bounded_mah_params(dk.DiffmahUParams(*[float(x) for x in u[:, i]]))
        for j, k in enumerate(fields):
            lo, hi = ref.MAH_BOUNDS[k]
            mon.check_close(float(bs[j]), B[k][i], _p_tol(lo, hi), f"scalar {k} equals array {k}", u=u[:, i])
    # module defaults are consistent with the mapping
    D = dk.DEFAULT_MAH_PARAMS
    d2 = dk.get_bounded_mah_params(dk.DEFAULT_MAH_U_PARAMS)
    for k in fields:
        mon.check_close(float(getattr(d2, k)), float(getattr(D, k)), 1e-4, f"default {k} round trip")
    mon.sample(rounds=r + 1, u=u[:, 0], bounded={k: B[k][0] for k in fields})
    mon.require("unbounded round trips", 1000)
    mon.require("double-precision round trips", 500)
