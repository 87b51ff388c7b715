"""Verdict discipline shared by all checks.

A check drives the real code of /repo and reports what it observed to a Monitor.
Verdicts are three-valued: violated (exit 1), held on what was observed (exit 0),
inconclusive or harness error (exit 2).
"""
import hashlib
import json
import os
import sys
import time
import traceback
from contextlib import contextmanager

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
KNOWN = os.path.join(VERIF, "known_findings.jsonl")


class Violation(Exception):
    """Raised to stop a check at the first unlisted violation."""


class Inconclusive(Exception):
    pass


PASS = {(os.path.join(VERIF, "harness", "fileops.py"), f) for f in ("open_", "__init__", "create_dataset", "__getattr__", "close", "__exit__")}
PASS.add((os.path.join(VERIF, "harness", "scripts.py"), "__call__"))
PASS_FILE = os.path.join(VERIF, "harness", "mpi.py")


def blame(tb):
    """Innermost frame of /repo, or None when the exception came out of the harness itself."""
    ours = [f for f in tb if f.filename.startswith((REPO + "/", VERIF + "/"))]
    # stand-ins that pass a call on (open, h5py.File, MPI) raise what the real thing would raise
    while ours and (ours[-1].filename, ours[-1].name) in PASS or ours and ours[-1].filename == PASS_FILE:
        ours.pop()
    if not ours or not ours[-1].filename.startswith(REPO + "/"):
        return None
    return ours[-1]


def _jsonable(x, depth=0):
    import numpy as np

    if depth > 6:
        return repr(x)[:200]
    if isinstance(x, (str, int, bool)) or x is None:
        return x
    if isinstance(x, float):
        return x if abs(x) < float("inf") else repr(x)
    if isinstance(x, dict):
        return {str(k): _jsonable(v, depth + 1) for k, v in x.items()}
    if isinstance(x, tuple) and hasattr(x, "_asdict"):
        return {k: _jsonable(v, depth + 1) for k, v in x._asdict().items()}
    if isinstance(x, (list, tuple)):
        return [_jsonable(v, depth + 1) for v in list(x)[:200]]
    try:
        a = np.asarray(x)
        if a.dtype.kind in "fiub":
            if a.ndim == 0:
                return _jsonable(a.item(), depth + 1)
            return [_jsonable(v, depth + 1) for v in a.ravel()[:200].tolist()]
    except Exception:
        pass
    return repr(x)[:500]


class Monitor:
    def __init__(self, prop, tier, seed, level, rule, budget_s, assumptions=()):
        self.prop, self.tier, self.seed, self.level = prop, tier, seed, level
        self.rule = rule
        self.t_start = time.time()
        self.budget_s = budget_s
        self.evaluations = 0
        self.events = {}
        self._distinct = set()
        self.samples = []
        self.assumptions = list(assumptions)
        self.violations = []
        self.known_hits = []
        self.known = self._load_known()
        self.context = []
        self.skipped = []

    # -- budget ---------------------------------------------------------
    def elapsed(self):
        return time.time() - self.t_start

    def more(self):
        """False once the wall-clock safety budget is used up (never a verdict)."""
        return self.elapsed() < self.budget_s

    # -- observation ----------------------------------------------------
    def seen(self, event, n=1):
        self.events[event] = self.events.get(event, 0) + int(n)

    def case(self, *key):
        """Register a distinct non-trivial situation that was judged."""
        self._distinct.add(hashlib.sha1(repr(key).encode()).hexdigest()[:16])

    def sample(self, **kw):
        if len(self.samples) < 12:
            self.samples.append(_jsonable(kw))

    def skip(self, why):
        if why not in self.skipped:
            self.skipped.append(why)

    # -- judging --------------------------------------------------------
    def check(self, ok, what, /, n=1, known_key=None, **witness):
        """One oracle evaluation (of n values). `ok` may be a bool or bool array."""
        self.evaluations += int(n)
        if not isinstance(ok, (bool, int)):
            import numpy as np

            ok = bool(np.all(np.asarray(ok)))
        if ok:
            return True
        self._violate(what, witness, known_key)
        return False

    def check_close(self, got, want, tol, what, /, **witness):
        """|got-want| <= tol elementwise; NaN in got (not in want) violates."""
        import numpy as np

        got = np.asarray(got, dtype="f8")
        want = np.asarray(want, dtype="f8")
        if got.shape != want.shape:
            try:
                want = np.broadcast_to(want, got.shape) if want.ndim <= got.ndim else want
            except ValueError:
                pass
        if got.shape != want.shape:
            return self.check(False, what + " (shape)", got_shape=list(got.shape), want_shape=list(want.shape), **witness)
        tol = np.broadcast_to(np.asarray(tol, dtype="f8"), got.shape)
        same_inf = np.isinf(want) & (got == want)
        with np.errstate(all="ignore"):
            bad = ~((np.abs(got - want) <= tol) | same_inf | (np.isnan(got) & np.isnan(want)))
        self.evaluations += int(got.size)
        if not bad.any():
            return True
        idx = tuple(int(i[0]) for i in np.nonzero(bad)) if got.ndim else ()
        extra = {"index": list(idx), "got": float(got[idx]), "want": float(want[idx]), "tol": float(tol[idx]), "n_bad": int(bad.sum()), "n": int(got.size)}
        for k, v in witness.items():
            extra[k if k not in extra else "input_" + k] = v
        self._violate(what, extra, None)
        return False

    def require(self, event, minimum):
        """Too few observations of the deciding event make the run inconclusive."""
        if self.events.get(event, 0) < minimum:
            raise Inconclusive(f"event {event!r}: observed {self.events.get(event, 0)} < {minimum}")

    @contextmanager
    def valid_input(self, what, **witness):
        """An exception out of /repo code on a valid input is a violation."""
        try:
            yield
        except (Violation, Inconclusive, KeyboardInterrupt, MemoryError):
            raise
        except BaseException as e:  # SystemExit of a script included
            tb = traceback.extract_tb(e.__traceback__)
            f = blame(tb)
            if f is None or type(e).__name__ == "HarnessError":
                raise
            witness = dict(witness)
            witness["exception"] = f"{type(e).__name__}: {e}"[:800]
            witness["raised_at"] = f"{f.filename}:{f.lineno} in {f.name}"
            self._violate(what + ": raised on valid input", witness, None)

    def _load_known(self):
        out = []
        if os.path.exists(KNOWN):
            for line in open(KNOWN):
                line = line.strip()
                if line:
                    d = json.loads(line)
                    if d.get("status") == "known" and d.get("property") == self.prop:
                        out.append(d)
        return out

    def _violate(self, what, witness, known_key):
        if known_key is not None:
            for d in self.known:
                if d.get("key") == known_key:
                    if known_key not in self.known_hits:
                        self.known_hits.append(known_key)
                    return
        rec = dict(what=what, witness=_jsonable(witness), context=_jsonable(self.context))
        self.violations.append(rec)
        raise Violation(what)

    # -- reporting ------------------------------------------------------
    def write_evidence(self):
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        ev = dict(
            property=self.prop,
            tier=self.tier,
            seed=int(self.seed),
            level=self.level,
            coverage=dict(
                evaluations=int(self.evaluations),
                distinct_nontrivial=len(self._distinct),
                rule=self.rule,
                samples=self.samples,
                explanation="; ".join(f"{k}={v}" for k, v in sorted(self.events.items())),
            ),
            assumptions=self.assumptions + [f"skipped: {s}" for s in self.skipped],
            wall_s=round(self.elapsed(), 2),
            violations=len(self.violations),
        )
        with open(os.path.join(d, f"{self.prop}.json"), "w") as f:
            json.dump(ev, f, indent=1)

    def write_replay(self):
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        fn = os.path.join(d, f"replay_{self.prop}_{self.tier}_{self.seed}.json")
        rec = dict(
            property=self.prop,
            replay_command=f"cd {VERIF} && VERIF_SEED={self.seed} VERIF_TIER={self.tier} ./run_check {self.prop} {self.tier}",
            violations=self.violations,
        )
        with open(fn, "w") as f:
            json.dump(rec, f, indent=1)
        return fn


def run(prop, tier, seed, body, level, rule, budget, assumptions=(), min_distinct=2):
    mon = Monitor(prop, tier, seed, level, rule, budget, assumptions)
    code = 0
    try:
        body(mon)
        if len(mon._distinct) < min_distinct:
            raise Inconclusive(f"only {len(mon._distinct)} distinct cases judged")
    except Violation:
        pass
    except Inconclusive as e:
        print(f"INCONCLUSIVE property={prop}: {e}")
        code = 2
    except BaseException as e:
        tb = traceback.extract_tb(e.__traceback__)
        f = blame(tb)
        if f is not None and type(e).__name__ != "HarnessError" and not isinstance(e, (KeyboardInterrupt, MemoryError)):
            # every call a check makes is a valid use: raising is a violation
            traceback.print_exc()
            mon.violations.append(
                dict(
                    what="library raised on a valid use",
                    witness=dict(exception=f"{type(e).__name__}: {e}"[:800], raised_at=f"{f.filename}:{f.lineno} in {f.name}"),
                    context=_jsonable(mon.context),
                )
            )
        else:
            traceback.print_exc()
            print(f"ERROR property={prop}: {type(e).__name__}: {e}")
            code = 2
    mon.write_evidence()
    for key in mon.known_hits:
        d = [x for x in mon.known if x["key"] == key][0]
        print(f"KNOWN-FINDING: property={prop} {d['what']}")
    if mon.violations:
        fn = mon.write_replay()
        v = mon.violations[0]
        print(json.dumps(v)[:3000])
        print(f"VIOLATION property={prop} replay={fn}")
        code = 1
    else:
        verdict = "held" if code == 0 else "no verdict"
        print(
            f"property={prop} tier={tier} seed={seed}: {verdict}; evaluations={mon.evaluations} "
            f"distinct={len(mon._distinct)} events={dict(sorted(mon.events.items()))} wall={mon.elapsed():.1f}s"
        )
    sys.stdout.flush()
    sys.stderr.flush()
    return code
