"""The real unchunking script over sequences of runs, judged column by column and file by file."""
import os
import shutil
import tempfile

import numpy as np

from harness import scripts, unchunk
from harness.env import rng_for

RULE = "distinct (subvolume range, run in sequence, column set, same/other output directory) runs judged"


def body(mon):
    scripts.install_stubs()
    rng = rng_for(mon)
    quick = mon.tier == "quick"
    top = tempfile.mkdtemp(prefix="verif_c21_")
    scratch = os.path.join(top, "scratch")
    os.makedirs(scratch)
    try:
        for rep in range(9 if quick else 120):
            if rep > 4 and not mon.more():
                break
            drn = os.path.join(top, f"r{rep}")
            indir = os.path.join(drn, "in")
            same = bool(rng.random() < 0.25)
            outdir = indir if same else os.path.join(drn, str(rng.choice(["out", "new/deep", "[o]*", "{a}"])))
            lo = int(rng.choice([0, 1, 9, 98, 255]))
            n = int(rng.integers(2, 6))
            subs = list(range(lo, lo + n))
            want, files = {}, {}
            for s in subs:
                # also: columns may differ between subvolumes
                w, f = unchunk.build(rng, indir, [s], max_rows=int(rng.choice([1, 5, 40])))
                want.update(w)
                files.update(f)
            by = os.path.join(indir, "subvol_1_chunk_notes.txt")
            open(by, "w").write("x")
            # successive runs over a random partition of the range, in random order; some subvolumes are never asked for
            cuts = sorted({lo, lo + n, *[int(x) for x in rng.integers(lo, lo + n + 1, 2)]})
            ranges = [(a, b) for a, b in zip(cuts[:-1], cuts[1:])]
            if rng.random() < 0.5 and len(ranges) > 1:
                ranges = ranges[:-1]
            ranges = [ranges[i] for i in rng.permutation(len(ranges))]
            if rng.random() < 0.2:
                ranges.append((lo, lo))  # empty range: nothing to do
            done = set()
            for k, (a, b) in enumerate(ranges):
                W = dict(istart=a, iend=b, run=k, subvolumes=subs, same_directory=same, outdir=os.path.basename(outdir), columns={s: sorted(want[s]) for s in range(a, b)})
                mon.context = [dict(rep=rep, **W)]
                with mon.valid_input("unchunk script", **W):
                    unchunk.run(a, b, indir, outdir)
                done |= set(range(a, b))
                for s in subs:
                    fn = unchunk.output_name(outdir, s)
                    mine = [f for f in files if os.path.basename(f).startswith(f"subvol_{s}_chunk_")]
                    left = [f for f in mine if os.path.exists(f)]
                    if s in done:
                        st = unchunk.output_problem(fn, want[s], scratch)
                        mon.check(st is None, "output is the concatenation of the chunks in order", n=sum(v.size for v in want[s].values()), subvolume=s, problem=st, **W)
                        mon.check(not left, "merged chunk files are gone", subvolume=s, left=[os.path.basename(f) for f in left[:5]], **W)
                        mon.seen("columns judged", len(want[s]))
                        mon.seen("rows judged", len(next(iter(want[s].values()))))
                    else:
                        mon.check(not os.path.exists(fn), "no output for a subvolume that was not requested", subvolume=s, **W)
                        bad = [os.path.basename(f) for f in mine if not os.path.exists(f) or unchunk.digest(f) != files[f]]
                        mon.check(not bad, "chunk files of other subvolumes untouched", n=len(mine), subvolume=s, bad=bad[:5], **W)
                mon.check(os.path.exists(by), "unrelated files untouched", **W)
                outs = {os.path.basename(unchunk.output_name(outdir, s)) for s in done}
                got = set(os.listdir(outdir)) if os.path.isdir(outdir) else set()
                extra = got - outs - {os.path.basename(by)} - {os.path.basename(f) for f in files}
                mon.check(not extra, "no other file is written", extra=sorted(extra)[:5], **W)
                mon.seen("runs judged")
                mon.case(a, b, k, same, len(want[a]) if a in want else 0)
            shutil.rmtree(drn)
    finally:
        shutil.rmtree(top)
    mon.require("runs judged", 8)
    mon.require("rows judged", 200)
