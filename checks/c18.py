"""Crash-point and fault-injection monitor of the scripts that delete files.

One run visits every file operation; before and after each the disk is judged as a crash there
would leave it (unflushed buffers lost). Further runs fail one chosen operation each."""
import errno
import gc
import os
import shutil
import tempfile

import numpy as np

from harness import fileops, mpi, scripts, unchunk
from harness.env import rng_for

LEVEL = "fault_enumeration"
RULE = "distinct (script, operation, kind of fault or crash, position) points judged"
ASSUMPTIONS = ["a crash loses data that the process had not yet handed to the operating system; the operating system itself does not crash"]


class Injected(OSError):
    pass


def plant_bystanders(job, drn):
    """files that are not the script's own, in the output directory and next to it"""
    out = {}
    names = ["README.txt", "notes.dat", "tmp_mah_fits_rank_0.dat.bak", "tmp_mah_fits.dat", "results_rank_0.dat", "subvol_999_chunk_0.hdf5", "rank_1.dat"]
    for t in list(job.tables)[:1]:
        if "_chunk_" in t:  # files of another run of the same subvolume, and of other subvolumes
            sub, chunk = t.split("_")[1], t.split("_")[3].split(".")[0]
            names += [f"subvol_{sub}_notes.dat", f"subvol_{sub}_chunk_{chunk}.txt", f"subvol_{sub}7_chunk_{chunk}_tmp_mah_fits_rank_0.dat"]
            names += [f"subvol_9{sub}_chunk_{chunk}_tmp_mah_fits_rank_0.dat", f"subvol_{sub}_chunk_{chunk}9_tmp_mah_fits_rank_1.dat"]
    par = os.path.dirname(os.path.abspath(job.outdir))
    sibs = [os.path.join(par, s) for s in ("ax", "a", "out2", "o1")]
    for d in [job.outdir, *sibs]:
        os.makedirs(d, exist_ok=True)
    for n in names:
        out[os.path.join(job.outdir, n)] = n.encode()
    for s in sibs:
        if os.path.realpath(s) == os.path.realpath(job.outdir):
            continue
        for n in ("tmp_mah_fits_rank_0.dat", "subvol_0_chunk_0_tmp_mah_fits_rank_0.dat", "diffmah_fits.hdf5", "x.dat"):
            out[os.path.join(s, n)] = (s + n).encode()
    sub = os.path.join(job.outdir, "keep")
    os.makedirs(sub, exist_ok=True)
    out[os.path.join(sub, "tmp_mah_fits_rank_0.dat")] = b"sub"
    with fileops.quiet():
        for k, v in out.items():
            with open(k, "wb") as f:
                f.write(v)
    return out


def intact(files):
    bad = []
    with fileops.quiet():
        for k, v in files.items():
            try:
                with open(k, "rb") as f:
                    if f.read() != v:
                        bad.append("changed: " + k)
            except OSError:
                bad.append("gone: " + k)
    return bad


def chunk_of(job, path):
    """the table a temporary file belongs to"""
    b = os.path.basename(path)
    if len(job.tables) == 1:
        return next(iter(job.tables))
    stem = b.split("_tmp_mah_fits_rank_")[0]
    return stem + ".hdf5" if stem + ".hdf5" in job.tables else None


def table_state(job, name, rows, scratch):
    fn = os.path.join(job.outdir, name)
    with fileops.quiet():
        if not os.path.exists(fn):
            return "missing"
        cp = os.path.join(scratch, "t.hdf5")
        shutil.copyfile(fn, cp)
        try:
            tab = scripts.read_table(cp)
        except OSError as e:
            return f"unreadable: {e}"
        finally:
            os.remove(cp)
    return scripts.table_problem(tab, job, name, rows)


class Tracker:
    """Which temporary files have been completed, and whether a deleted one was safe to delete."""

    def __init__(self, mon, job, log, scratch, W):
        self.mon, self.job, self.log, self.scratch, self.W = mon, job, log, scratch, W
        self.complete = set()
        self.ops = []
        self.fault_at = None
        self.fault_when = "before"
        self.fired = None

    def __call__(self, op, path, when, rank):
        k = len(self.ops)
        self.ops.append((op, os.path.basename(path), when))
        tmp = scripts.TMP_RE.match(path) and os.path.dirname(path) == os.path.realpath(self.job.outdir)
        if tmp and op == "open_w" and when == "before":
            self.complete.discard(path)
        if tmp and op == "close_w" and when == "after":
            self.complete.add(path)
        if op in ("remove", "rename_from") or when == "after" or op in ("h5write", "h5close"):
            self.judge(f"crash at operation {k}: {when} {op} {os.path.basename(path)}")
        if op == "remove" and when == "before" and path in self.complete:
            name = chunk_of(self.job, path)
            if name:
                st = table_state(self.job, name, self.log.rows, self.scratch)
                self.mon.check(st is None, "a temporary file is deleted only after its table is complete", temporary=os.path.basename(path), table=name, state=st, ops=self.ops[-6:], **self.W)
                self.mon.seen("deletes judged")
        if self.fault_at == k:
            self.fired = (op, os.path.basename(path), when)
            raise Injected(errno.ENOSPC, "injected failure")

    def judge(self, where):
        gone = set()
        with fileops.quiet():
            for p in self.complete:
                if not os.path.exists(p):
                    gone.add(chunk_of(self.job, p))
        for name in gone - {None}:
            st = table_state(self.job, name, self.log.rows, self.scratch)
            self.mon.check(st is None, "rows of a deleted temporary file are in a complete table", where=where, table=name, state=st, ops=self.ops[-6:], **self.W)
        self.mon.seen("crash points judged")


def fitting(mon, rng, script, top, tag, policy, nranks, n_faults):
    drn = os.path.join(top, f"{script}_{tag}")
    outname = str(rng.choice(["out", "a*", "o?", "[ab]", "x; touch pwned", "{0}", "sp ace $(x)"]))
    scratch = os.path.join(top, "scratch")
    os.makedirs(scratch, exist_ok=True)
    job = scripts.build(rng, script, os.path.join(drn, "in"), os.path.join(drn, outname), 4, n_sub=1, nchunks=2)
    bystanders = plant_bystanders(job, drn)
    with fileops.quiet():
        for root, _, fs in os.walk(job.indir):
            for f in fs:
                p = os.path.join(root, f)
                bystanders[p] = open(p, "rb").read()
    W = dict(script=script, ranks=nranks, policy=policy, outdir=outname)
    mon.context = [dict(tag=tag, **W)]
    known = set(os.listdir(job.outdir))

    def clean():
        gc.collect()
        for f in os.listdir(job.outdir):
            if f not in known:
                os.remove(os.path.join(job.outdir, f))

    # a run without faults: every operation is a crash point
    log = scripts.FitLog(job)
    tr = Tracker(mon, job, log, scratch, W)
    scripts.run(job, nranks, policy, rng, log, on_op=tr)
    mon.check(not intact(bystanders), "no other file is changed or deleted", bad=intact(bystanders), **W)
    left = [f for f in os.listdir(job.outdir) if scripts.TMP_RE.match(f) and f not in known]
    mon.check(not left, "no temporary file is left behind on success", left=left, **W)
    for name in job.tables:
        st = table_state(job, name, log.rows, scratch)
        mon.check(st is None, "table complete on success", table=name, state=st, **W)
    ops = list(tr.ops)

    def rerun():
        # recovery: running again over the debris of a failed run gives the complete result
        gc.collect()  # files a failed run left open: in reality its process is gone
        debris = sorted(f for f in os.listdir(job.outdir) if f not in known)
        log = scripts.FitLog(job)
        scripts.run(job, nranks, policy, rng, log)
        for name in job.tables:
            st = table_state(job, name, log.rows, scratch)
            mon.check(st is None, "a rerun after a failure writes the complete table", table=name, state=st, debris=debris, **W)
        left = [f for f in os.listdir(job.outdir) if scripts.TMP_RE.match(f) and f not in known]
        mon.check(not left, "no temporary file is left behind by the rerun", left=left, debris=debris, **W)
        mon.check(not intact(bystanders), "no other file is changed or deleted by the rerun", bad=intact(bystanders), **W)
        mon.seen("reruns over debris judged")
        if any(scripts.TMP_RE.match(f) for f in debris):
            mon.seen("reruns over left-over temporary files")

    mon.case(script, tag, "crash sweep", len(ops))
    mon.seen("operations enumerated", len(ops))
    # one run per failing operation, favouring the collate-and-clean-up phase
    late = [k for k, o in enumerate(ops) if o[0] in ("remove", "h5write", "h5close") or o[1].endswith(("hdf5", "h5")) or (o[0] == "open_r")]
    early = [k for k in range(len(ops)) if k not in late]
    pick = list(late) if n_faults is None else [int(x) for x in rng.permutation(late)[: n_faults - n_faults // 4]]
    pick += early if n_faults is None else [int(x) for x in rng.permutation(early)[: n_faults // 4]]
    for k in sorted(pick):
        if not mon.more():
            break
        clean()
        log = scripts.FitLog(job)
        tr = Tracker(mon, job, log, scratch, W)
        tr.fault_at = k
        failed = True
        try:
            scripts.run(job, nranks, policy, np.random.default_rng([mon.seed, k]), log, on_op=tr)
            failed = False
        except (mpi.Deadlock, mpi.CollectiveMismatch):
            if tr.fired is None:
                raise
        except BaseException:
            if tr.fired is None:
                raise
        F = dict(fault=tr.fired, at=k, script_failed=failed, **W)
        tr.judge(f"after the failure of {tr.fired}")
        bad = intact(bystanders)
        mon.check(not bad, "no other file is changed or deleted when an operation fails", bad=bad, **F)
        if not failed:
            # the script claims success: every row must be somewhere
            for name in job.tables:
                st = table_state(job, name, log.rows, scratch)
                temps = [p for p in tr.complete if chunk_of(job, p) == name]
                safe = st is None or (len(temps) == nranks and all(os.path.exists(p) for p in temps))
                mon.check(safe, "a run that reports success has stored every row", table=name, state=st, **F)
        if tr.fired:
            mon.seen("faults injected")
            mon.case(script, tr.fired[0], tr.fired[2], k)
        if failed and rng.random() < (0.25 if n_faults is not None else 0.1):
            rerun()
    rerun()
    shutil.rmtree(drn)


def unchunking(mon, rng, top, tag, n_faults):
    drn = os.path.join(top, f"unchunk_{tag}")
    scratch = os.path.join(top, "scratch")
    os.makedirs(scratch, exist_ok=True)
    src = os.path.join(drn, "src")
    n_sub = int(rng.choice([1, 2, 3]))
    first = int(rng.choice([0, 1, 7]))
    subs = list(range(first, first + n_sub))
    want, digests = unchunk.build(rng, src, subs, max_rows=3, columns=("logm0", "loss", "fit_algo"))
    others, odig = unchunk.build(rng, src, [first + n_sub], max_rows=2, columns=("logm0",))
    same_dir = bool(rng.random() < 0.3)
    stale = [None, "columns", "truncated", "empty"][int(rng.integers(4))] if tag else "columns"
    with open(os.path.join(src, "notes.hdf5"), "wb") as f:
        f.write(b"not mine")

    template = os.path.join(drn, "stale.h5")
    if stale:
        # what an earlier run that was killed may have left: an unfinished output
        import h5py

        with fileops.quiet():
            with h5py.File(template, "w") as hdf:
                if stale != "empty":
                    hdf["fit_algo"] = np.arange(3)
            if stale == "truncated":
                os.truncate(template, os.path.getsize(template) // 2)

    def fresh():
        gc.collect()  # files a failed run left open
        for d in ("in", "out"):
            if os.path.exists(os.path.join(drn, d)):
                shutil.rmtree(os.path.join(drn, d))
        shutil.copytree(src, os.path.join(drn, "in"))
        os.makedirs(os.path.join(drn, "out"))
        with open(os.path.join(drn, "out", "old.hdf5"), "wb") as f:
            f.write(b"older output")
        dirs = os.path.join(drn, "in"), os.path.join(drn, "in" if same_dir else "out")
        if stale:
            shutil.copyfile(template, unchunk.output_name(dirs[1], subs[0]))
        return dirs

    state = dict(ops=[], fault_at=None, fired=None)
    ok_out = {}

    def judge(indir, outdir, where):
        for sub in subs:
            gone = [c for c in range(20) if not os.path.exists(os.path.join(indir, f"subvol_{sub}_chunk_{c:02d}.hdf5"))]
            if gone:
                fn = unchunk.output_name(outdir, sub)
                key = (fn, os.path.getmtime(fn) if os.path.exists(fn) else None, os.path.getsize(fn) if os.path.exists(fn) else None)
                if ok_out.get(sub) != key:
                    st = unchunk.output_problem(fn, want[sub], scratch)
                    mon.check(st is None, "rows of a deleted chunk file are in a complete output", where=where, subvolume=sub, deleted_chunks=gone[:5], state=st, ops=state["ops"][-5:])
                    ok_out[sub] = key
        mon.seen("crash points judged")

    def cb(op, path, when):
        k = len(state["ops"])
        state["ops"].append((op, os.path.basename(path), when))
        if op == "remove":
            b = os.path.basename(path)
            sub = int(b.split("_")[1]) if b.startswith("subvol_") and "_chunk_" in b else None
            mon.check(sub in subs, "only merged chunk files are deleted", deleted=b, subvolumes=subs)
            # every output is complete before the first delete
            fn = unchunk.output_name(state["dirs"][1], sub)
            st = unchunk.output_problem(fn, want[sub], scratch)
            mon.check(st is None, "a chunk file is deleted only after its output is complete", deleted=b, state=st, ops=state["ops"][-5:])
            mon.seen("deletes judged")
        judge(*state["dirs"], f"crash at operation {k}: {when} {op} {os.path.basename(path)}")
        if state["fault_at"] == k:
            state["fired"] = (op, os.path.basename(path), when)
            raise Injected(errno.EIO, "injected failure")

    def others_intact(indir, outdir, what):
        bad = [f for f, h in odig.items() if not os.path.exists(f.replace(src, indir, 1)) or unchunk.digest(f.replace(src, indir, 1)) != h]
        mon.check(not bad, what + ": chunk files of other subvolumes untouched", bad=bad[:5])
        # chunk files of the range are either gone or bytewise unchanged
        bad = [f for f, h in digests.items() if os.path.exists(f.replace(src, indir, 1)) and unchunk.digest(f.replace(src, indir, 1)) != h]
        mon.check(not bad, what + ": remaining chunk files unchanged", bad=bad[:5])
        for p, v in ((os.path.join(indir, "notes.hdf5"), b"not mine"), (os.path.join(drn, "out", "old.hdf5"), b"older output")):
            mon.check(os.path.exists(p) and open(p, "rb").read() == v, what + ": unrelated files untouched", path=p)

    W = dict(subvolumes=subs, same_directory=same_dir, stale_output=stale)
    mon.context = [dict(script="unchunk", tag=tag, **W)]
    state["dirs"] = fresh()
    unchunk.run(first, first + n_sub, *state["dirs"], on_op=cb)
    ops = list(state["ops"])
    mon.seen("operations enumerated", len(ops))
    others_intact(*state["dirs"], "success")
    for sub in subs:
        st = unchunk.output_problem(unchunk.output_name(state["dirs"][1], sub), want[sub], scratch)
        mon.check(st is None, "output complete on success", subvolume=sub, state=st, **W)
    mon.case("unchunk", tag, "crash sweep", len(ops))
    points = np.arange(len(ops))
    if n_faults is not None:
        w = [k for k in points if ops[k][0] in ("open_w", "h5write", "h5close")]
        rest = [k for k in points if k not in w]
        points = np.sort(np.concatenate([rng.permutation(w)[: n_faults // 2], rng.permutation(rest)[: n_faults // 2]]))
    for k in points:
        if not mon.more():
            break
        state.update(ops=[], fault_at=int(k), fired=None, dirs=fresh())
        ok_out.clear()
        try:
            unchunk.run(first, first + n_sub, *state["dirs"], on_op=cb)
        except BaseException as e:
            if type(e).__name__ in ("Violation", "Inconclusive") or state["fired"] is None:
                raise
        state["fault_at"] = None
        judge(*state["dirs"], f"after the failure of {state['fired']}")
        others_intact(*state["dirs"], "after a failure")
        mon.seen("faults injected")
        mon.case("unchunk", *state["fired"][::2], int(k))
    # damaged or missing chunk files: the script must fail without deleting anything
    for damage in ("missing", "truncated", "missing column"):
        state.update(ops=[], fault_at=None, fired=None, dirs=fresh())
        ok_out.clear()
        indir, outdir = state["dirs"]
        sub = int(rng.choice(subs))
        c = int(rng.integers(1, 20))
        fn = os.path.join(indir, f"subvol_{sub}_chunk_{c:02d}.hdf5")
        if damage == "missing":
            os.remove(fn)
        elif damage == "truncated":
            os.truncate(fn, os.path.getsize(fn) // 3)
        else:
            import h5py

            with h5py.File(fn, "a") as hdf:
                del hdf["loss"]
        before = sorted(os.listdir(indir))
        deleted = []

        def cb2(op, path, when):
            if op == "remove":
                deleted.append(os.path.basename(path))

        failed = False
        try:
            unchunk.run(first, first + n_sub, indir, outdir, on_op=cb2)
        except (Exception, SystemExit):
            failed = True
        bad = [d for d in deleted if int(d.split("_")[1]) == sub]
        mon.check(not bad, "chunk files of a subvolume with a damaged chunk are not deleted", damage=damage, chunk=c, deleted=bad[:5], script_failed=failed, n_before=len(before), **W)
        mon.case("unchunk", damage, sub, c)
        mon.seen("damaged inputs judged")
    shutil.rmtree(drn)


def body(mon):
    scripts.install_stubs()
    rng = rng_for(mon)
    quick = mon.tier == "quick"
    top = tempfile.mkdtemp(prefix="verif_c18_")
    try:
        for rep in range(1 if quick else 8):
            for i, script in enumerate(scripts.MPI_SCRIPTS):
                policy = mpi.POLICIES[(i + rep + mon.seed) % len(mpi.POLICIES)]
                fitting(mon, rng, script, top, rep, policy, 1 + (i + rep) % 3, 16 if quick else None)
        for rep in range(2 if quick else 10):
            unchunking(mon, rng, top, rep, 16 if quick else None)
    finally:
        shutil.rmtree(top)
    mon.sample(events=mon.events)
    mon.require("faults injected", 40)
    mon.require("deletes judged", 20)
