"""Loaders run on random synthetic catalogs in the real file formats, judged against the spec:
running maximum, units, cosmic time, row order, identifiers."""
import os
import shutil
import tempfile

import numpy as np
from scipy.integrate import quad

from harness import mpi, scripts
from harness.env import REPO, rng_for

RULE = "distinct (loader, catalog size, number of snapshots, subset/cosmology kind) cases judged"
ASSUMPTIONS = ["haccytrees is not installed: a stand-in serves random core matrices and simulation descriptions"]


def age(z, Om, w0, wa, h):
    """Flat w0wa-CDM age in Gyr by quadrature, independent of dsps"""

    def f(a):
        return 1 / (a * np.sqrt(Om * a**-3 + (1 - Om) * a ** (-3 * (1 + w0 + wa)) * np.exp(-3 * wa * (1 - a))))

    return np.array([quad(f, 0, 1 / (1 + zz), limit=200)[0] for zz in z]) * 977.792221 / (100 * h)


def judge_time(mon, t, z, cosmo, what, **W):
    from dsps.cosmology import flat_wcdm

    t = np.asarray(t, "f8")
    mon.check(t.shape == (len(z),), what + ": one time per snapshot", shape=list(t.shape), n=len(z), **W)
    want = np.asarray(flat_wcdm.age_at_z(np.asarray(z), *cosmo), "f8")
    mon.check_close(t, want, 2e-5 * want, what + ": ages of the simulation's own cosmology (dsps)", z=z, cosmo=cosmo, **W)
    k = np.unique(np.linspace(0, len(z) - 1, 6).astype(int))
    mon.check_close(t[k], age(np.asarray(z)[k], *cosmo), 4e-3, what + ": ages by quadrature", z=np.asarray(z)[k], cosmo=cosmo, **W)
    mon.check(np.all(np.diff(t) > 0), what + ": times increase", n=len(t), t=t, **W)
    mon.seen("times judged", len(t))


def judge_mah(mon, got, want, rtol, what, **W):
    got = np.asarray(got)
    mon.check(got.shape == want.shape, what + ": one history per halo", got=list(got.shape), want=list(want.shape), **W)
    g = got.astype("f8")
    mon.check(np.all(np.isfinite(g)) and np.all(g >= 0), what + ": masses finite and not negative", n=g.size, **W)
    mon.check(np.all(np.diff(g, axis=1) >= 0), what + ": cumulative peak mass never decreases", n=g.size, **W)
    mon.check_close(g, want, rtol * np.abs(want), what + ": running maximum in the documented units, in stored order", **W)
    mon.seen("masses judged", g.size)


def hacc(mon, rng, top, rep):
    from diffmah.data_loaders import load_hacc_mahs as lh

    h = scripts.HACC
    cosmo = scripts.Cosmo(rng.uniform(0.15, 0.45), float(rng.choice([-1.0, rng.uniform(-1.3, -0.7)])), float(rng.choice([0.0, rng.uniform(-0.6, 0.3)])), rng.uniform(0.55, 0.8))
    nt = int(rng.choice([2, 10, 101]))
    steps = np.sort(rng.choice(np.arange(43, 500), nt, replace=False))
    steps[-1] = 499
    steps = np.unique(steps)
    sim = scripts.Sim(cosmo, steps, nsteps=500)
    h["sims"].clear()
    h["sims"]["A"] = sim
    h["sims"]["B"] = scripts.Sim(scripts.Cosmo(0.2, -1.0, 0.0, 0.9), steps)
    h["configs"] = {"/cfg/my_sim": sim}
    n = int(rng.choice([1, 2, 7, 40, 150]))
    m = scripts.raw_histories(rng, n, len(steps), lo=8, hi=15.5)
    if rng.random() < 0.3:
        m[int(rng.integers(n))] = 0.0
    col = scripts.MASS_COLNAME if rng.random() < 0.7 else "other_mass"
    dt = str(rng.choice(["f4", "f8"]))
    h["catalogs"].clear()
    h["catalogs"]["cat"] = {col: m.astype(dt), "decoy": m[::-1].astype(dt) * 2}
    if col != scripts.MASS_COLNAME:
        h["catalogs"]["cat"][scripts.MASS_COLNAME] = m.astype(dt) * 3
    nchunks = int(rng.choice([1, 2, 5, 12]))
    name = "A" if rng.random() < 0.8 else "/cfg/my_sim"
    W = dict(loader="load_mahs", rep=rep, halos=n, nt=len(steps), nchunks=nchunks, dtype=dt, column=col)
    want = np.maximum.accumulate(m.astype(dt), axis=1).astype("f8") / cosmo.h
    z = sim.step2z(np.array(sim.cosmotools_steps))
    parts = []
    cc = (cosmo.Omega_m, cosmo.w0, cosmo.wa, cosmo.h)
    for c in range(nchunks):
        kw = {} if col == scripts.MASS_COLNAME and rng.random() < 0.5 else dict(mass_colname=col)
        t, x = lh.load_mahs("cat", name, c, nchunks, **kw)
        parts.append(np.asarray(x))
    judge_time(mon, t, z, cc, "HACC", **W)
    rows = np.array_split(np.arange(n), nchunks)
    for c in range(nchunks):
        judge_mah(mon, parts[c], want[rows[c]], 1e-6, f"HACC chunk", chunk=c, **W)
    mon.case("hacc", n, len(steps), nchunks, dt)
    if name == "A" and hasattr(lh, "get_cosmic_time_hacc"):
        zz, tt = lh.get_cosmic_time_hacc("A")
        mon.check_close(zz, z, 1e-6 * (1 + z), "HACC snapshot redshifts", **W)
        judge_time(mon, tt, z, cc, "HACC cosmic time", **W)


def bolshoi(mon, rng, top, rep):
    from diffmah.data_loaders import load_bpl_um_data as lb

    drn = os.path.join(top, f"bpl{rep}")
    nt = int(rng.choice([5, 30, 178]))
    scale = np.sort(rng.uniform(0.06, 1.0, nt))
    scale[-1] = 1.0
    subs, total = {}, 0
    labels = [int(x) for x in rng.permutation(10)[: int(rng.integers(1, 5))]]
    for lab in labels:
        n = int(rng.choice([1, 3, 60]))
        m = scripts.raw_histories(rng, n, nt, lo=8, hi=16.5).astype("f4")
        if rng.random() < 0.3:
            m[0] = 0.0
        subs[lab] = (rng.integers(2**53, 2**63 - 1, n, dtype="i8"), m)
        total += n
    scripts.write_bpl(drn, scale, subs, rng)
    pick = [int(x) for x in rng.permutation(labels)[: int(rng.integers(1, len(labels) + 1))]]
    with scripts.argv("bolshoi", []):
        hid, mah, t, lgmin, lgt0 = lb.load_bpl_mah_data(drn, pick)
    W = dict(loader="load_bpl_mah_data", subvolumes=pick, halos=total, nt=nt)
    want_id = np.concatenate([subs[x][0] for x in pick])
    want = np.concatenate([np.maximum.accumulate(subs[x][1], axis=1) for x in pick]).astype("f8")
    mon.check(np.asarray(hid).dtype.kind == "i" and np.array_equal(np.asarray(hid), want_id), "Bolshoi identifiers exact and in order", n=len(want_id), **W)
    # missing progenitors are stored as zero: documented floor of 1 Msun
    judge_mah(mon, mah, np.maximum(want, 1.0), 1e-6, "Bolshoi", **W)
    judge_time(mon, t, 1.0 / scale - 1.0, (0.307, -1.0, 0.0, 0.678), "Bolshoi", **W)
    mon.check(lgmin == 10.0, "Bolshoi fit floor", got=lgmin)
    mon.check_close(float(lgt0), np.log10(float(t[-1])), 1e-5, "Bolshoi lgt0 is the log of the last time", **W)
    mon.case("bolshoi", nt, len(pick), total)


def tng(mon, rng, top, rep):
    from diffmah.data_loaders import load_tng_mahs as lt

    drn = os.path.join(top, f"tng{rep}")
    os.makedirs(drn)
    n, nt = int(rng.choice([1, 4, 120])), int(rng.choice([6, 40, 100]))
    job = scripts._tng(rng, drn, drn, n, nt)
    t, mah = lt.load_tng_data(data_drn=drn)
    want = np.array([h["mah"] for h in job.halos])
    W = dict(halos=n, nt=nt)
    judge_mah(mon, mah, want, 2e-5, "TNG", loader="load_tng_mahs", **W)
    stored_t = np.load(os.path.join(drn, "tng_cosmic_time.npy"))
    mon.check(np.array_equal(np.asarray(t), stored_t), "TNG times are the stored ones", **W)
    mods = published_modules()
    hid, lg, t2, lgmin = mods[rep % len(mods)].load_tng_data(data_drn=drn)
    arr = np.load(os.path.join(drn, "tng_diffmah.npy"))
    mon.check(np.array_equal(np.asarray(hid), np.arange(n)) and np.array_equal(np.asarray(t2), stored_t) and lgmin == 10.0, "published TNG identifiers, times and fit floor", **W)
    mon.check_close(lg, np.maximum.accumulate(arr["mpeakh"], axis=1).astype("f8"), 1e-6, "published TNG log masses are the running maximum", **W)
    mon.seen("masses judged", np.size(lg))
    mon.case("tng", n, nt)


def published_modules():
    """The package's loader of published data and, when present, its copy beside the fitting scripts"""
    import importlib.util

    from diffmah.data_loaders import load_diffmah_pub_data as lp

    fn = os.path.join(REPO, "scripts", "fitting_scripts", "load_mah_data.py")
    out = [lp]
    if os.path.isfile(fn):
        spec = importlib.util.spec_from_file_location("scripts_load_mah_data", fn)
        mod = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(mod)
        out.append(mod)
    return out


def published(mon, rng, top, rep):
    mods = published_modules()
    lp = mods[rep % len(mods)]
    drn = os.path.join(top, f"pub{rep}")
    os.makedirs(drn)
    for name, f, floor in (("bpl", lp.load_bolshoi_data, 10.0), ("mdpl2", lp.load_mdpl2_data, 11.25)):
        n, nt = int(rng.choice([1, 3, 80])), int(rng.choice([6, 60]))
        want = {}
        t = np.sort(rng.uniform(0.3, 13.8, nt))
        for gal in ("cens", "sats"):
            m = scripts.raw_histories(rng, n, nt, lo=7, hi=16.5)
            if (rep + (gal == "cens")) % 3:
                m[0, : nt // 2] = 0.0
                if rng.random() < 0.3:
                    m[-1] = 0.0
            dt = str(rng.choice(["f4", "f8"]))
            arr = np.zeros(n, dtype=[("mpeak_history_main_prog", dt, (nt,)), ("halo_id", "i8"), ("mpeak", "f4")])
            arr["mpeak_history_main_prog"] = m
            arr["halo_id"] = rng.integers(2**53, 2**63 - 1, n)
            np.save(os.path.join(drn, f"{name}_diffmah_{gal}.npy"), arr)
            want[gal] = arr
        if name == "bpl":
            np.save(os.path.join(drn, "bpl_cosmic_time.npy"), t)
        else:
            np.savetxt(os.path.join(drn, "mdpl2_cosmic_time.txt"), t)
        for gal in ("cens", "sats"):
            hid, lg, tt, lgmin = f(gal, data_drn=drn)
            W = dict(loader=f"published {name}", gal_type=gal, halos=n, nt=nt)
            mon.check(np.array_equal(np.asarray(hid), want[gal]["halo_id"]), "published identifiers exact and in order", **W)
            run = np.maximum.accumulate(want[gal]["mpeak_history_main_prog"], axis=1).astype("f8")
            lgw = np.log10(np.where(run > 0, run, 1.0))
            mon.check(np.all(np.isfinite(lg)), "published log masses finite", n=np.size(lg), **W)
            mon.check_close(lg, lgw, 2e-6 * 15, "published log masses are the running maximum (0 for missing progenitors)", **W)
            mon.check_close(tt, t, 1e-12 * t, "published times are the stored ones", **W)
            mon.check(lgmin == floor, "published fit floor", got=lgmin, want=floor, **W)
            mon.seen("masses judged", np.size(lg))
            mon.case(name, gal, n, nt)


def galacticus(mon, rng, top, rep):
    from diffmah.data_loaders import load_galacticus_eps_mahs as lg

    fn = os.path.join(top, f"gal{rep}.hdf5")
    n = int(rng.choice([1, 2, 9, 60])) if rep != 3 else 1500
    masses, times = scripts.galacticus_histories(rng, n, int(rng.choice([8, 30])))
    iso, tl = rng.integers(0, 2, n), rng.uniform(1, 13, n)
    scripts.write_galacticus(fn, masses, times, iso, tl)
    mon.check(int(lg.get_nhalos_tot(fn)) == n, "Galacticus number of halos", got=int(lg.get_nhalos_tot(fn)), want=n)
    for a, b in [(0, None), (0, n), (n // 2, None), (n // 3, max(n // 3, n - 1)), (0, 1), (n - 1, n), (0, 0), (n, n)]:
        kw = {} if (a, b) == (0, None) else dict(istart=a, iend=b)
        m, t, i, l = lg.extract_galacticus_mah_tables(fn, **kw)
        W = dict(loader="galacticus", halos=n, istart=a, iend=b)
        e = n if b is None else b
        mon.check(len(m) == len(t) == len(i) == len(l) == e - a, "Galacticus rows requested", got=[len(x) for x in (m, t, i, l)], want=e - a, **W)
        for k in range(e - a):
            ok = np.array_equal(m[k], masses[a + k]) and np.array_equal(t[k], times[a + k])
            mon.check(ok, "Galacticus history is the stored one", row=k, **W)
        mon.check(np.array_equal(np.asarray(i), iso[a:e]) and np.array_equal(np.asarray(l), tl[a:e]), "Galacticus flags and infall times are the stored ones", **W)
        mon.seen("masses judged", sum(len(x) for x in m))
        mon.case("galacticus", n, a, b)


def many_halos(mon, rng, top):
    """Catalogs with more rows than small integer types can count"""
    from diffmah.data_loaders import load_tng_mahs as lt

    n = 70_000
    arr = np.zeros(n, dtype=[("mpeakh", "f4", (2,)), ("mpeak", "f4")])
    arr["mpeakh"] = rng.uniform(9, 14, (n, 2))
    arr["mpeak"] = arr["mpeakh"].max(axis=1)
    np.save(os.path.join(top, "tng_diffmah.npy"), arr)
    np.save(os.path.join(top, "tng_cosmic_time.npy"), np.array([5.0, 13.8]))
    run = np.maximum.accumulate(arr["mpeakh"], axis=1).astype("f8")
    for mod in published_modules():
        hid, lg, _, _ = mod.load_tng_data(data_drn=top)
        mon.check(np.array_equal(np.asarray(hid), np.arange(n)), "published TNG identifiers of a large catalog", n=n)
        mon.check_close(lg, run, 1e-6 * run, "published TNG log masses of a large catalog")
    mah = lt.load_tng_data(data_drn=top)[1]
    mon.check_close(np.log10(np.asarray(mah, "f8")), run - np.log10(0.6774), 1e-5, "TNG masses of a large catalog")
    mon.seen("masses judged", 4 * n)
    mon.case("large catalog")


def body(mon):
    scripts.install_stubs()
    rng = rng_for(mon)
    n = 12 if mon.tier == "quick" else 150
    top = tempfile.mkdtemp(prefix="verif_c19_")
    try:
        many_halos(mon, rng_for(mon, "many"), top)
        for rep in range(n):
            for f in (hacc, bolshoi, tng, published, galacticus):
                mon.context = [dict(loader=f.__name__, rep=rep)]
                with mon.valid_input(f.__name__ + " loader", rep=rep):
                    f(mon, rng, top, rep)
            for d in os.listdir(top):
                p = os.path.join(top, d)
                shutil.rmtree(p) if os.path.isdir(p) else os.remove(p)
            if rep > 4 and not mon.more():
                break
    finally:
        shutil.rmtree(top)
    mon.require("masses judged", 1000)
    mon.require("times judged", 100)
