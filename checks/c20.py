"""The real scatter and per-rank loading on simulated ranks with controlled schedules."""
import numpy as np

from harness import mpi, scripts
from harness.env import priv, rng_for

RULE = "distinct (ranks, array shape class, axis, root, dtype kind, scheduling policy) runs judged"
ASSUMPTIONS = ["MPI is simulated in one process with weakly synchronising point-to-point messages and broadcasts"]


def scatter(mon, rng, rep, lh, f):
    nranks = int(rng.integers(1, 13))
    ndim = int(rng.integers(1, 4))
    shape = [int(rng.choice([1, 2, 3, 5, nranks, nranks - 1, 2 * nranks + 1, 40])) for _ in range(ndim)]
    axis = int(rng.integers(0, ndim))
    shape[axis] = int(rng.choice([0, 1, max(nranks - 1, 0), nranks, nranks + 1, 37, 256]))
    root = int(rng.integers(0, nranks))
    dt = str(rng.choice(["f4", "f8", "i8", "i4", "bool", "S5"]))
    total = int(np.prod(shape))
    a = np.arange(total).reshape(shape)
    if dt == "S5":
        a = np.array([b"%d" % (x % 9999) for x in range(total)], dtype="S5").reshape(shape)
    else:
        a = (a % 2 == 1) if dt == "bool" else a.astype(dt) + (0.5 if dt.startswith("f") else 0)
    order = rng.choice(["C", "F", "strided"])
    if order == "F":
        a = np.asfortranarray(a)
    elif order == "strided" and ndim == 1:
        a = np.repeat(a, 2)[::2]
    if axis < 0 or rng.random() < 0.2:
        axis_arg = axis - ndim
    else:
        axis_arg = axis
    policy = mpi.POLICIES[rep % len(mpi.POLICIES)]
    W = dict(ranks=nranks, shape=shape, axis=axis_arg, root=root, dtype=dt, policy=policy)
    mon.context = [W]
    before = a.copy()
    world = mpi.World(nranks, policy, rng)

    def target(rank):
        kw = dict(axis=axis_arg, root=root)
        if axis_arg == 0 and rank % 2 == 0:
            kw.pop("axis")
        if root == 0 and rank % 2 == 1:
            kw.pop("root")
        return f(a if rank == root else None, comm=mpi.COMM, **kw)

    try:
        parts = mpi.run_ranks(world, target)
    except mpi.Deadlock as e:
        mon.check(False, "the scatter completes on every rank", error=str(e), **W)
        return
    mon.check(all(isinstance(p, np.ndarray) and p.ndim == ndim for p in parts), "every rank receives an array", shapes=[list(np.shape(p)) for p in parts], **W)
    sizes = [p.shape[axis] for p in parts]
    mon.check(max(sizes) - min(sizes) <= 1, "per-rank sizes differ by at most one", sizes=sizes, **W)
    other = [[d for k, d in enumerate(p.shape) if k != axis] for p in parts]
    mon.check(all(o == [d for k, d in enumerate(shape) if k != axis] for o in other), "the array is cut along the requested axis only", shapes=[list(p.shape) for p in parts], **W)
    got = np.concatenate(parts, axis=axis)
    mon.check(got.shape == before.shape and got.dtype == before.dtype and np.array_equal(got, before), "the ranks' arrays concatenate to the original", n=total, sizes=sizes, **W)
    mon.check(np.array_equal(a, before), "the root's array is not modified", **W)
    left = {k: len(q) for k, q in world.box.items() if q}
    mon.check(not left, "every message sent is received", left=str(left), **W)
    mon.seen("scatters judged")
    mon.seen("elements accounted for", total)
    mon.seen("MPI calls", world.mpi_calls)
    mon.case(nranks, ndim, axis, root == 0, dt[0], policy, np.sign(shape[axis] - nranks))


def per_rank(mon, rng, rep, lh):
    h = scripts.HACC
    nranks = int(rng.integers(1, 13))
    n = int(rng.choice([1, 2, nranks, 3 * nranks + 1, 60]))
    nt = int(rng.choice([2, 9, 40]))
    cosmo = scripts.Cosmo(0.3, -1.0, 0.0, 0.7)
    h["sims"].clear()
    h["sims"]["A"] = scripts.Sim(cosmo, np.linspace(499, 80, nt).astype(int)[::-1])
    nchunks = int(rng.choice([1, 3]))
    m = scripts.raw_histories(rng, n * nchunks, nt)
    h["catalogs"].clear()
    col = scripts.MASS_COLNAME if rng.random() < 0.6 else "other_mass"
    h["catalogs"]["cat"] = {scripts.MASS_COLNAME: m if col == scripts.MASS_COLNAME else 2 * m[::-1], col: m}
    mass = {} if col == scripts.MASS_COLNAME else dict(mass_colname=col)
    h["readers"].clear()
    c = int(rng.integers(nchunks))
    policy = mpi.POLICIES[(rep + 1) % len(mpi.POLICIES)]
    W = dict(ranks=nranks, halos=n, nchunks=nchunks, chunk=c, policy=policy, column=col)
    mon.context = [W]
    world = mpi.World(nranks, policy, rng)
    default_comm = bool(rng.random() < 0.5)

    def target(rank):
        kw = {} if default_comm else dict(comm=mpi.COMM)
        return lh.load_mahs_per_rank("cat", "A", c, nchunks, **kw, **mass)

    try:
        res = mpi.run_ranks(world, target)
    except (mpi.Deadlock, mpi.CollectiveMismatch) as e:
        mon.check(False, "loading completes on every rank", error=str(e), **W)
        return
    mon.check(len(h["readers"]) == 1 and h["readers"][0][0] == 0, "only the root reads the catalog", readers=[str(r[:4]) for r in h["readers"]], **W)
    mon.check(h["readers"][0][2:4] == (c, nchunks), "the root reads the requested chunk", reader=str(h["readers"][0][:4]), **W)
    t_root, full = lh.load_mahs("cat", "A", c, nchunks, **mass)
    mon.check(all(np.shape(x[1])[1:] == np.shape(full)[1:] for x in res), "whole histories are distributed", shapes=[list(np.shape(x[1])) for x in res], **W)
    got = np.concatenate([np.asarray(x[1]) for x in res])
    mon.check(np.array_equal(got, np.asarray(full)), "the ranks' histories concatenate to the chunk", n=got.size, got=list(got.shape), want=list(np.shape(full)), **W)
    sizes = [len(x[1]) for x in res]
    mon.check(max(sizes) - min(sizes) <= 1, "per-rank numbers of halos differ by at most one", sizes=sizes, **W)
    for r, x in enumerate(res):
        mon.check(np.array_equal(np.asarray(x[0]), np.asarray(t_root)), "every rank receives the same times", rank=r, **W)
    mon.seen("loads judged")
    mon.case("load", nranks, n, nchunks, policy)


def body(mon):
    scripts.install_stubs()
    from diffmah.data_loaders import load_hacc_mahs as lh

    rng = rng_for(mon)
    f = priv(lh, "_scatter_nd")
    quick = mon.tier == "quick"
    for rep in range(120 if quick else 3000):
        if rep > 60 and not mon.more():
            break
        if f is not None:
            scatter(mon, rng, rep, lh, f)
        if rep % 3 == 0 or f is None:
            per_rank(mon, rng, rep, lh)
    if f is None:
        mon.skip("_scatter_nd is gone: judged through load_mahs_per_rank only")
    mon.require("loads judged", 20)
