"""Catalogs, stubs and a runner for the MPI fitting scripts of /repo/scripts/fitting_scripts."""
import contextlib
import inspect
import io
import os
import re
import sys
import types

import numpy as np

from . import fileops, mpi
from .env import HarnessError

REPO = os.environ.get("VERIF_REPO", "/repo")
DRN = os.path.join(REPO, "scripts", "fitting_scripts")
MPI_SCRIPTS = ("lastjourney", "discovery", "tng", "bolshoi", "galacticus")
FILES = dict(
    lastjourney="hacc_lastjourney_diffmah_fitter_script.py",
    discovery="hacc_discovery_sims_diffmah_fitter_script.py",
    tng="tng_diffmah_fitter_script.py",
    bolshoi="bolshoi_planck_fitting_script.py",
    galacticus="galacticus_diffmah_fitter_script.py",
    unchunk="unchunk_last_journey_script.py",
)

# ------------------------------------------------------------------ haccytrees stand-in
HACC = dict(catalogs={}, readers=[], sims={})
MASS_COLNAME = "infall_tree_node_mass"


class Cosmo:
    def __init__(self, Omega_m, w0, wa, h):
        self.Omega_m, self.w0, self.wa, self.h = Omega_m, w0, wa, h


class Sim:
    """The part of haccytrees.Simulation the loaders use: steps from high to low redshift."""

    def __init__(self, cosmo, steps, nsteps=500, zini=200.0):
        self.cosmo, self.cosmotools_steps, self.nsteps, self.zini = cosmo, list(steps), nsteps, zini

    def step2z(self, step):
        a_ini = 1.0 / (1.0 + self.zini)
        da = (1.0 - a_ini) / self.nsteps
        return 1.0 / (a_ini + da * (np.asarray(step) + 1)) - 1.0


def install_stubs():
    mpi.install()
    hacc = types.ModuleType("haccytrees")
    core = types.ModuleType("haccytrees.coretrees")

    class Simulation:
        simulations = HACC["sims"]

        @staticmethod
        def parse_config(name):
            if name in HACC.get("configs", {}):
                return HACC["configs"][name]
            raise FileNotFoundError(name)

    def corematrix_reader(filename, calculate_secondary_host_row=False, nchunks=None, chunknum=None, simulation=None, **kw):
        HACC["readers"].append((mpi.current()[1], filename, None if chunknum is None else int(chunknum), nchunks, simulation))
        if filename not in HACC["catalogs"]:
            raise OSError(f"unable to open {filename}")
        cols = HACC["catalogs"][filename]
        if nchunks is None:
            return {k: v.copy() for k, v in cols.items()}
        return {k: np.array_split(v, nchunks)[chunknum].copy() for k, v in cols.items()}

    core.corematrix_reader = corematrix_reader
    hacc.Simulation, hacc.coretrees = Simulation, core
    sys.modules["haccytrees"], sys.modules["haccytrees.coretrees"] = hacc, core
    sky = types.ModuleType("diffsky")
    dl = types.ModuleType("diffsky.data_loaders")

    def load_flat_hdf5(*a, **kw):
        from diffmah.data_loaders.io_utils import load_flat_hdf5 as f

        return f(*a, **kw)

    dl.load_flat_hdf5 = load_flat_hdf5
    sky.data_loaders = dl
    sys.modules["diffsky"], sys.modules["diffsky.data_loaders"] = sky, dl


# ------------------------------------------------------------------ catalogs
def raw_histories(rng, n, nt, lo=10.0, hi=15.0, zeros=True):
    """n linear mass histories with dips and zeros; every halo's peak mass is unique."""
    if n == 0:
        return np.zeros((0, nt))
    lgm = lo + (hi - lo) * (rng.permutation(n) + 0.8 * rng.random(n)) / n
    x = np.linspace(0, 1, nt)
    slope = rng.uniform(0.3, 2.2, n)
    lg = lgm[:, None] - slope[:, None] * (1 - x[None, :]) - 0.05
    dip = rng.random((n, nt)) < 0.1
    lg = lg - np.where(dip, rng.uniform(0, 1, (n, nt)), 0)
    lg[:, -1] = lgm - np.where(rng.random(n) < 0.3, 0.2, 0.05)
    m = 10.0**lg
    if zeros:
        k = rng.integers(0, nt // 2, n)
        m = np.where((np.arange(nt)[None, :] < k[:, None]) & (rng.random(n) < 0.4)[:, None], 0.0, m)
        m = np.where((rng.random((n, nt)) < 0.03) & (np.arange(nt) < nt - 1), 0.0, m)
    flat = rng.random(n) < 0.1  # constant: cannot be fit
    m[flat] = m[flat, -1:]
    if zeros and n > 2 and rng.random() < 0.4:
        m[rng.integers(n)] = 0.0  # one halo without any mass (one: histories must tell halos apart)
    return m


class Job:
    """One run of one script: argv, where it writes and what it must produce."""

    def __init__(self, script, argv, indir, outdir):
        self.script, self.argv, self.indir, self.outdir = script, argv, indir, outdir
        self.tables = {}  # basename -> list of halo indices, in order
        self.halos = []  # dict(t, mah, kw, halo_id)
        self.extra = {}  # basename -> {key: array}
        self.has_id = False
        self.n_ok_hint = 0

    def add(self, t, mah, halo_id=None, **kw):
        o = dict(lgm_min=-np.inf, dlogm_cut=2.5, t_fit_min=1.0, tpeak_fixed=None, force_skip_fit=False)
        o.update(kw)
        self.halos.append(dict(t=np.asarray(t, "f8"), mah=np.asarray(mah, "f8"), kw=o, halo_id=halo_id))
        return len(self.halos) - 1


TMP_RE = re.compile(r".*tmp_mah_fits_rank_.*\.dat$")


def _hacc(rng, script, indir, outdir, sizes, nchunks, nt):
    from dsps.cosmology import flat_wcdm

    name = {"lastjourney": "LastJourney"}.get(script)
    args = []
    if script == "discovery":
        short = str(rng.choice(["LCDM", "W0WA"]))
        name = "Discovery" + short
    cosmo = Cosmo(0.31 + 0.01 * rng.random(), -1.0 if script == "lastjourney" else -0.8, 0.0 if script == "lastjourney" else -0.4, 0.6766)
    steps = np.unique(np.linspace(60, 499, nt).astype(int))
    sim = Sim(cosmo, steps)
    HACC["sims"].clear()
    HACC["sims"][name] = sim
    other = Sim(Cosmo(0.25, -1.0, 0.0, 0.8), steps)
    for k in ("LastJourney", "DiscoveryLCDM", "DiscoveryW0WA"):
        HACC["sims"].setdefault(k, other)
    t = np.asarray(flat_wcdm.age_at_z(sim.step2z(np.array(sim.cosmotools_steps)), cosmo.Omega_m, cosmo.w0, cosmo.wa, cosmo.h), "f8")
    n_sub = len(sizes)
    first = 0
    last = None
    if n_sub > 1 and rng.random() < 0.5:
        first = int(rng.integers(0, n_sub))
        last = int(rng.integers(first + 1, n_sub + 1))
    opts = ["-istart", str(first), "-nchunks", str(nchunks)]
    if last is not None:
        opts += ["-iend", str(last)]
    subs = list(range(n_sub))
    if script == "lastjourney":
        opts += ["-num_subvols_tot", str(n_sub)]
        argv = [indir, outdir, "base.h5", *opts]
    else:
        # available subvolumes need not be contiguous
        subs = sorted(int(x) for x in rng.choice(30, n_sub, replace=False))
        argv = [indir, short, outdir, *opts]
    job = Job(script, argv, indir, outdir)
    HACC["catalogs"].clear()
    HACC["readers"].clear()
    n_all = int(sum(sizes))
    allm = raw_histories(rng, n_all, len(t))
    pos = 0
    for j, sub in enumerate(subs):
        n = int(sizes[j])
        m = allm[pos : pos + n]
        pos += n
        fn = os.path.join(indir, f"m000p.coreforest.{sub}.hdf5")
        open(fn, "w").close()
        HACC["catalogs"][fn] = {MASS_COLNAME: m.astype("f4") if rng.random() < 0.5 else m, "central": np.ones(m.shape)}
        if j < first or (last is not None and j >= last):
            continue
        good = np.maximum.accumulate(HACC["catalogs"][fn][MASS_COLNAME], axis=1) / cosmo.h
        for c, rows in enumerate(np.array_split(np.arange(n), nchunks)):
            idx = [job.add(t, good[i]) for i in rows]
            job.tables[f"subvol_{sub}_chunk_{c:0{len(str(nchunks))}d}.hdf5"] = idx
    return job


def _tng(rng, indir, outdir, n, nt):
    m = raw_histories(rng, n, nt)
    with np.errstate(divide="ignore"):
        lg = np.where(m > 0, np.log10(np.where(m > 0, m, 1.0)), 0.0)
    dt = [("mpeakh", "f4" if rng.random() < 0.5 else "f8", (nt,)), ("mpeak", "f4")]
    arr = np.zeros(n, dtype=dt)
    arr["mpeakh"] = lg
    arr["mpeak"] = lg.max(axis=1)
    t = np.linspace(0.4, 13.8, nt)
    np.save(os.path.join(indir, "tng_cosmic_time.npy"), t)
    np.save(os.path.join(indir, "tng_diffmah.npy"), arr)
    job = Job("tng", [indir, outdir], indir, outdir)
    run = np.maximum.accumulate(arr["mpeakh"], axis=1).astype("f8")
    mah = np.where(run == 0, 0.0, 10**run) / 0.6774
    job.tables["diffmah_tng_fits.hdf5"] = [job.add(t, x) for x in mah]
    return job


def write_bpl(drn, scale, subvols, rng):
    """subvols: {label: (halo_id, mpeak_history)}"""
    from umachine_pyio.memmap_array_utils import write_ndarray_to_memmap

    os.makedirs(drn, exist_ok=True)
    np.savetxt(os.path.join(drn, "scale_list_bpl.dat"), scale)
    for lab, (hid, mph) in subvols.items():
        for k, v in (("halo_id", hid), ("mpeak_history_main_prog", mph)):
            d = os.path.join(drn, f"subvol_{lab}", k)
            os.makedirs(d)
            if len(v):
                write_ndarray_to_memmap(v, os.path.join(d, k + ".memmap"))
            else:
                raise HarnessError("empty memmap")


def _bolshoi(rng, indir, outdir, sizes, nt):
    from dsps.cosmology import flat_wcdm

    scale = np.linspace(0.12, 1.0, nt)
    subs = {}
    allm = raw_histories(rng, int(sum(sizes)), nt, lo=10.6)
    ids = rng.permutation(2**53 + np.arange(10 * len(allm) + 10))[: len(allm)].astype("i8")
    pos = 0
    for j, n in enumerate(sizes):
        subs[j] = (ids[pos : pos + n], allm[pos : pos + n].astype("f4"))
        pos += n
    write_bpl(indir, scale, subs, rng)
    first = int(rng.integers(0, len(sizes)))
    last = int(rng.integers(first, len(sizes)))
    t = np.asarray(flat_wcdm.age_at_z(1.0 / scale - 1.0, 0.307, -1.0, 0.0, 0.678), "f8")
    job = Job("bolshoi", [indir, outdir, "-istart", str(first), "-iend", str(last)], indir, outdir)
    job.has_id = True
    idx, hids, mahs = [], [], []
    for j in range(first, last + 1):
        hid, m = subs[j]
        m = np.maximum(np.maximum.accumulate(m, axis=1), 1.0)
        for h, x in zip(hid, m):
            idx.append(job.add(t, x, halo_id=int(h), lgm_min=10.0, t_fit_min=1.0))
            hids.append(int(h))
            mahs.append(x)
    job.tables["diffmah_fits.hdf5"] = idx
    job.extra["bpl_mpeak_histories.hdf5"] = dict(halo_id=np.array(hids), mpeak_history=np.array(mahs), bpl_t_table=t)
    return job


def write_galacticus(fn, masses, times, iso, t_last):
    import h5py

    vlen = h5py.vlen_dtype(np.dtype("f8"))
    with h5py.File(fn, "w") as hdf:
        g = hdf.create_group("Outputs/Output1/nodeData")
        for k, v in (("haloAccretionHistoryMass", masses), ("haloAccretionHistoryTime", times)):
            ds = g.create_dataset(k, (len(v),), dtype=vlen)
            for i, x in enumerate(v):
                ds[i] = x
        g["nodeIsIsolated"] = np.asarray(iso)
        g["basicTimeLastIsolated"] = np.asarray(t_last)


def galacticus_histories(rng, n, nt):
    masses, times = [], []
    base = raw_histories(rng, n, nt, zeros=False)
    for i in range(n):
        tmax = 13.8 if rng.random() < 0.7 else rng.uniform(3.0, 13.0)
        k = int(rng.integers(max(4, nt // 2), nt + 1))
        t = np.linspace(rng.uniform(0.3, 1.0), tmax, k)
        if rng.random() < 0.25:
            t = np.linspace(tmax - rng.uniform(0.05, 1.3), tmax, k)
        masses.append(base[i, -k:])
        times.append(t)
    return masses, times


def _galacticus(rng, indir, outdir, n, nt):
    masses, times = galacticus_histories(rng, n, nt)
    write_galacticus(os.path.join(indir, "cat.hdf5"), masses, times, rng.integers(0, 2, n), rng.uniform(1, 13, n))
    job = Job("galacticus", ["-indir", indir, "-inbn", "cat.hdf5", "-outdir", outdir, "-outbn", "gal_fits.h5"], indir, outdir)
    T0 = max(t[-1] for t in times)
    dt_min = 0.5
    if rng.random() < 0.3:
        dt_min = float(rng.choice([0.2, 0.9]))
        job.argv += ["-dt_fit_min", str(dt_min)]
    idx = []
    for m, t in zip(masses, times):
        m = np.maximum.accumulate(m)
        skip = bool(t[-1] - t[0] < dt_min)
        if t[-1] < T0:
            t, m = np.append(t, T0), np.append(m, m[-1])
        idx.append(job.add(t, m, force_skip_fit=skip))
    job.tables["gal_fits.h5"] = idx
    return job


def build(rng, script, indir, outdir, n, nt=12, n_sub=2, nchunks=3):
    """A job with about n halos per table."""
    os.makedirs(indir, exist_ok=True)
    if script in ("lastjourney", "discovery"):
        sizes = [max(1, int(n * nchunks * f)) for f in rng.uniform(0.6, 1.4, n_sub)]
        return _hacc(rng, script, indir, outdir, sizes, nchunks, nt)
    if script == "tng":
        return _tng(rng, indir, outdir, n, nt)
    if script == "bolshoi":
        sizes = [max(1, x) for x in rng.multinomial(max(n, n_sub), np.ones(n_sub) / n_sub)]
        return _bolshoi(rng, indir, outdir, sizes, nt)
    if script == "galacticus":
        return _galacticus(rng, indir, outdir, n, nt)
    raise HarnessError(script)


# ------------------------------------------------------------------ the fitter under observation
class FitLog:
    """Stands where the scripts find the fitter: records who was fit with what, and with which result."""

    def __init__(self, job, real=False):
        from diffmah.fitting_helpers import diffmah_fitter_helpers as fh

        self.job, self.real, self.fh = job, real, fh
        self.original = fh.diffmah_fitter
        self.sig = inspect.signature(self.original)
        self.calls = []  # (rank, halo index or None, problem or None)
        self.rows = {}

    def match(self, t, m):
        """halo whose history this is; None if there is none"""
        best = None
        if not hasattr(self, "last"):
            self.last = np.array([h["mah"][-1] for h in self.job.halos])
        for i in np.flatnonzero(np.abs(self.last - m[-1]) <= 1e-4 * m[-1] + 1e-30).tolist():
            h = self.job.halos[i]
            if len(h["mah"]) == len(m) and np.allclose(h["mah"], m, rtol=1e-5, atol=0) and np.allclose(h["t"], t, rtol=1e-5, atol=0):
                if best is None or not any(c[1] == i for c in self.calls):
                    best = i
                    if not any(c[1] == i for c in self.calls):
                        break
        return best

    def near(self, t, m):
        """diagnosis only"""
        for i, h in enumerate(self.job.halos):
            if len(m) and len(h["mah"]) and abs(h["mah"][-1] / max(m[-1], 1e-30) - 1) < 1e-4:
                return f"closest is halo {i}"
        return "no halo has this final mass"

    def __call__(self, *a, **kw):
        w, rank = mpi.current()
        if w is not None:
            w.yield_point(rank)
        b = self.sig.bind(*a, **kw)
        b.apply_defaults()
        o = dict(b.arguments)
        t, m = np.asarray(o["t_sim"], "f8"), np.asarray(o["mah_sim"], "f8")
        one_d = t.ndim == m.ndim == 1 and len(m) > 0
        i = self.match(t, m) if one_d else None
        prob = None
        if i is None:
            prob = dict(what="fitted a history that is not in the catalog", mah=m, t=t, diagnosis=self.near(t, m) if one_d else "not one-dimensional")
        else:
            want = self.job.halos[i]["kw"]
            bad = {k: (o.get(k), v) for k, v in want.items() if not (o.get(k) == v or (isinstance(v, float) and o.get(k) is not None and abs(o[k] - v) < 1e-12))}
            if bad:
                prob = dict(what="fitted with other options", halo=i, options={k: [repr(x) for x in v] for k, v in bad.items()})
        self.calls.append((rank, i, prob))
        if self.real:
            res = self.original(*a, **kw)
        else:
            res = self.fake(i, bool(o["force_skip_fit"]))
        if i is not None:
            lg = np.asarray(res.loss_data.log_mah_target)
            npts = int(np.sum(lg < lg[-1])) if len(lg) else 0
            self.rows[i] = [*[float(x) for x in res.p_best], float(res.loss_best), npts, int(res.code_used)]
        return res

    def fake(self, i, skip):
        fh = self.fh
        k = -1 if i is None else i
        ld = fh.DiffmahFitLossData(np.arange(5.0), np.append(np.arange(k % 7 + 3.0), 50.0), 0.0, 1.1)
        if skip or k % 11 == 10:
            p = fh.dk.DEFAULT_MAH_PARAMS._make([-99.0] * 5)
            return fh.DiffmahFitResult(p, -99.0, True, False, -1, ld)
        p = fh.dk.DEFAULT_MAH_PARAMS._make([10 + k * 1e-3, -0.5 + k * 1e-3, 2 + k * 1e-3, 0.5 + k * 1e-4, 5 + k * 1e-2])
        return fh.DiffmahFitResult(p, 1e-4 * (1 + k), False, True, k % 2, ld)

    @contextlib.contextmanager
    def installed(self):
        places = []
        for name, mod in list(sys.modules.items()):
            if name.split(".")[0] == "diffmah" and mod is not None:
                for k, v in list(vars(mod).items()):
                    if v is self.original:
                        places.append((mod, k))
                        setattr(mod, k, self)
        try:
            yield self
        finally:
            for mod, k in places:
                setattr(mod, k, self.original)


_code = {}


def code_of(script):
    if script not in _code:
        fn = os.path.join(DRN, FILES[script])
        _code[script] = (compile(open(fn).read(), fn, "exec"), fn)
    return _code[script]


def preload(script):
    """Import what the script imports, outside the simulated job."""
    import diffmah.data_loaders.load_bpl_um_data  # noqa: F401
    import diffmah.data_loaders.load_galacticus_eps_mahs  # noqa: F401
    import diffmah.data_loaders.load_hacc_mahs  # noqa: F401
    import diffmah.data_loaders.load_tng_mahs  # noqa: F401
    import diffmah.fitting_helpers.diffmah_fitter_helpers  # noqa: F401
    import h5py  # noqa: F401


def execute(script, rank=0):
    code, fn = code_of(script)
    exec(code, {"__name__": "__main__", "__file__": fn, "__builtins__": __builtins__})


@contextlib.contextmanager
def argv(script, args):
    old = sys.argv
    sys.argv = [FILES[script], *[str(a) for a in args]]
    buf = io.StringIO()
    try:
        with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(buf):
            import warnings

            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                yield buf
    finally:
        sys.argv = old


YIELD_OPS = {"open_r", "open_w", "write", "close_w", "remove", "rename_from"}
KIND = dict(open_r="r", open_w="w", write="w", close_w="w", h5write="w", h5close="w", remove="d", rename_from="d", rename_to="w")


def run(job, nranks, policy, rng, log, on_op=None):
    """Execute the script on simulated ranks; -> World. Raises what the script raised."""
    preload(job.script)
    world = mpi.World(nranks, policy, rng)

    def callback(op, path, when):
        w, r = mpi.current()
        if on_op is not None:
            on_op(op, path, when, r)
        if w is None:
            return
        if when == "before" and op in YIELD_OPS:
            w.yield_point(r)
        w.touch(r, path, KIND[op])

    os.makedirs(job.outdir, exist_ok=True)
    with argv(job.script, job.argv), log.installed(), fileops.Watcher([job.outdir], callback) as wt:
        mpi.run_ranks(world, lambda r: execute(job.script, r))
    world.n_ops = wt.n_ops
    return world


def read_table(fn):
    import h5py

    with fileops.quiet(), h5py.File(fn, "r") as hdf:
        return {k: hdf[k][...] for k in hdf.keys()}


FLOAT_COLS = ("logm0", "logtc", "early_index", "late_index", "t_peak", "loss")
INT_COLS = ("n_points_per_fit", "fit_algo")


def table_problem(tab, job, name, rows):
    """None if the table holds exactly the fits of its halos in order."""
    idx = job.tables[name]
    cols = set(FLOAT_COLS + INT_COLS) | ({"halo_id"} if job.has_id else set())
    if set(tab) != cols:
        return dict(what="columns", got=sorted(tab), want=sorted(cols))
    for k in cols:
        if tab[k].shape != (len(idx),):
            return dict(what="number of rows", column=k, got=list(tab[k].shape), want=len(idx))
    if not idx:
        return None
    want = np.array([rows[i] for i in idx], "f8")
    for j, k in enumerate(FLOAT_COLS):
        bad = ~(np.abs(tab[k] - want[:, j]) <= 5.001e-6 * np.abs(want[:, j]))
        if bad.any():
            i = int(np.argmax(bad))
            return dict(what=f"row {i} is not the fit of halo {i}", column=k, got=float(tab[k][i]), want=float(want[i, j]), n_bad=int(bad.sum()), n=len(idx))
    for j, k in enumerate(INT_COLS):
        bad = tab[k] != want[:, 6 + j]
        if bad.any():
            i = int(np.argmax(bad))
            return dict(what=f"row {i} is not the fit of halo {i}", column=k, got=float(tab[k][i]), want=float(want[i, 6 + j]))
    if job.has_id:
        hid = [job.halos[i]["halo_id"] for i in idx]
        if [int(x) for x in tab["halo_id"]] != hid:
            return dict(what="identifiers", got=[str(int(x)) for x in tab["halo_id"][:5]], want=[str(x) for x in hid[:5]])
    return None
