"""The real fitting scripts on simulated MPI ranks under a controlled scheduler: call log of the
fitter, output tables and file-access races are judged."""
import os
import shutil
import tempfile

import numpy as np

from harness import fits, mpi, scripts
from harness.env import rng_for

RULE = "distinct (script, ranks, scheduling policy, halos per table class) runs; interleavings counted by distinct schedules"
ASSUMPTIONS = [
    "MPI is simulated in one process: collectives synchronise only as far as the MPI standard promises",
    "haccytrees and diffsky are not installed: stand-ins serve random catalogs",
]


def judge(mon, job, world, log, **W):
    if world.race:
        mon.check(False, "unsynchronised access of two ranks to one file", **world.race, **W)
    for rank, i, prob in log.calls:
        mon.check(prob is None, "every fit is of a catalog halo with its own history and options", rank=rank, problem=prob, **W)
    got = sorted(i for _, i, _ in log.calls)
    want = sorted(i for idx in job.tables.values() for i in idx)
    missing = sorted(set(want) - set(got))
    repeated = sorted({i for i in got if got.count(i) > 1})
    mon.check(got == want, "every halo is fit exactly once", missing=missing[:10], repeated=repeated[:10], n=len(want), **W)
    files = sorted(os.listdir(job.outdir))
    outputs = sorted(list(job.tables) + list(job.extra))
    mon.check([f for f in files if not scripts.TMP_RE.match(f)] == outputs, "exactly the documented outputs are written", got=files[:20], want=outputs[:20], **W)
    mon.check(not any(scripts.TMP_RE.match(f) for f in files), "no temporary file is left behind", files=files[:20], **W)
    for name in job.tables:
        tab = scripts.read_table(os.path.join(job.outdir, name))
        mon.check(True, "table")
        prob = scripts.table_problem(tab, job, name, log.rows)
        mon.check(prob is None, "row i of the table is the fit of halo i", table=name, problem=prob, **W)
        mon.seen("table rows judged", len(job.tables[name]))
    for name, cols in job.extra.items():
        tab = scripts.read_table(os.path.join(job.outdir, name))
        for k, v in cols.items():
            ok = k in tab and tab[k].shape == v.shape and np.allclose(tab[k], v, rtol=1e-5, atol=0)
            mon.check(ok, "target histories written next to the fits, in catalog order", file=name, column=k, **W)


def body(mon):
    scripts.install_stubs()
    rng = rng_for(mon)
    quick = mon.tier == "quick"
    top = tempfile.mkdtemp(prefix="verif_c17_")
    schedules = set()
    reps = 9 if quick else 150
    try:
        for script in scripts.MPI_SCRIPTS:
            for rep in range(reps):
                if rep > 5 and not mon.more():
                    break
                real = rep in (0,) if quick else rep % 15 == 0
                nranks = int([1, 2, 3, 8, 12, 2, 5, 4, 7][rep % 9])
                n = int(rng.choice([1, 2, nranks - 1 or 1, nranks + 1, 2 * nranks + 1, 40, 9]))
                if rep % 9 == 8:  # long enough for size-dependent paths
                    nranks, n = (1, 2)[rep // 9 % 2], 130
                nchunks = int(rng.choice([1, 2, 3, 10])) if n < 100 else 2
                if nranks == 12:  # two-digit rank numbers
                    nranks, n, nchunks = int(rng.integers(11, 14)), 30, 2
                if real:
                    n, nchunks = 5, 2
                    nranks = 3
                policy = mpi.POLICIES[(rep + scripts.MPI_SCRIPTS.index(script)) % len(mpi.POLICIES)]
                drn = os.path.join(top, f"{script}_{rep}")
                outname = rng.choice(["out", "a b [1] 'x' $HOME", "o*?", "deep/er", "{x} {0}"])
                job = scripts.build(rng, script, os.path.join(drn, "in"), os.path.join(drn, str(outname)), n, nt=12, n_sub=int(rng.choice([1, 2, 3])), nchunks=nchunks)
                log = scripts.FitLog(job, real=real)
                W = dict(script=script, ranks=nranks, policy=policy, outdir=str(outname), argv=job.argv, halos=len(job.halos))
                mon.context = [dict(rep=rep, real_fits=real, **W)]
                try:
                    world = scripts.run(job, nranks, policy, rng, log)
                except (mpi.Deadlock, mpi.CollectiveMismatch) as e:
                    mon.check(False, "the ranks agree on their collective operations and never wait for ever", error=str(e), **W)
                judge(mon, job, world, log, **W)
                schedules.add(tuple(world.trace))
                mon.seen("runs judged")
                mon.seen("fits observed", len(log.calls))
                mon.seen("scheduling decisions", world.steps)
                mon.seen("MPI calls", world.mpi_calls)
                mon.seen("file operations", world.n_ops)
                mon.case(script, nranks, policy, n, nchunks)
                if real:
                    # the same halos fit directly, without the script
                    for i, h in enumerate(job.halos):
                        res = fits.run(h["t"], h["mah"], **{k: v for k, v in h["kw"].items() if k != "tpeak_fixed"})
                        # inputs agree to single precision only: fit quality, skip and optimizer must agree
                        mon.check((log.rows[i][5] == -99.0) == bool(res.skip_fit), "a fit made by the script agrees with a direct fit (skipped or not)", halo=i, row=log.rows[i], **W)
                        if not res.skip_fit:
                            a, b = np.sqrt(max(log.rows[i][5], 0)), np.sqrt(max(float(res.loss_best), 0))
                            mon.check(abs(a - b) <= 0.1 * max(a, b) + 0.02, "a fit made by the script agrees with a direct fit (rms)", halo=i, script_row=log.rows[i], direct=[*fits.params(res), float(res.loss_best)], **W)
                        mon.seen("fits compared with direct fits")
                shutil.rmtree(drn)
        mon.seen("distinct schedules", len(schedules))
        mon.sample(argv=job.argv, trace=world.trace[:60])
    finally:
        shutil.rmtree(top)
    mon.require("runs judged", 10)
    mon.require("distinct schedules", 10)
