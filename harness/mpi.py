"""In-process stand-in for mpi4py with a controlled scheduler and a happens-before file-race detector.

Ranks are threads, but exactly one runs at a time; at every MPI call, file operation and
fit the scheduler decides who continues. Collectives synchronise no more than MPI promises
(bcast: receivers wait for the root only; reduce/gather: the root waits for all; ...).
"""
import pickle
import sys
import threading
import types

from .env import HarnessError


class Aborted(BaseException):
    """Another rank failed: the job is torn down."""


class Deadlock(Exception):
    pass


class CollectiveMismatch(Exception):
    pass


class FileRace(Exception):
    pass


_tls = threading.local()


def current():
    """(world, rank) of the calling thread, or (None, None)."""
    return getattr(_tls, "world", None), getattr(_tls, "rank", None)


POLICIES = ("random", "low_first", "high_first", "round_robin", "priorities", "starve")


class World:
    def __init__(self, size, policy, rng, races=True):
        self.size, self.policy, self.rng, self.races = size, policy, rng, races
        self.cv = threading.Condition()
        self.running = None
        self.pred = [None] * size  # None: runnable; callable: waits for it
        self.done = [False] * size
        self.started = [False] * size
        self.failure = None  # (rank, exception)
        self.abort = False
        self.prio = list(rng.permutation(size))
        self.steps = 0
        self.trace = []  # rank that ran at each scheduling decision
        # collectives
        self.seq = [0] * size
        self.coll = {}
        # point to point
        self.box = {}
        # vector clocks
        self.vc = [[0] * size for _ in range(size)]
        for r in range(size):
            self.vc[r][r] = 1
        self.access = {}
        self.race = None
        self.mpi_calls = 0

    # -- scheduling (all under self.cv) ---------------------------------
    def _ready(self, r):
        return not self.done[r] and self.started[r] and (self.pred[r] is None or self.pred[r]())

    def _pick(self):
        ready = [r for r in range(self.size) if self._ready(r)]
        if not ready:
            if all(self.done):
                self.running = None
            else:
                if self.failure is None:
                    waiting = [r for r in range(self.size) if not self.done[r]]
                    self.failure = (waiting[0], Deadlock(f"ranks {waiting} of {self.size} wait for each other or for ranks that have finished"))
                self.abort = True
                self.running = None
            return
        self.steps += 1
        p = self.policy
        if p == "random":
            nxt = int(self.rng.choice(ready))
        elif p == "low_first":
            nxt = ready[0]
        elif p == "high_first":
            nxt = ready[-1]
        elif p == "round_robin":
            last = self.running if self.running is not None else -1
            nxt = min(ready, key=lambda r: (r - last - 1) % self.size)
        elif p == "priorities":
            if self.rng.random() < 0.05:
                self.rng.shuffle(self.prio)
            nxt = min(ready, key=lambda r: self.prio[r])
        else:  # starve one rank for as long as possible
            victim = self.prio[0]
            rest = [r for r in ready if r != victim] or ready
            nxt = int(self.rng.choice(rest))
        self.running = nxt
        self.trace.append(nxt)

    def yield_point(self, rank, pred=None):
        with self.cv:
            if self.abort:
                raise Aborted()
            self.pred[rank] = pred
            self._pick()
            self.cv.notify_all()
            while self.running != rank and not self.abort:
                self.cv.wait(120)
            if self.abort:
                raise Aborted()
            self.pred[rank] = None

    def tick(self, rank):
        self.vc[rank][rank] += 1

    def join(self, dst, clock):
        self.vc[dst] = [max(a, b) for a, b in zip(self.vc[dst], clock)]

    # -- file accesses ---------------------------------------------------
    def touch(self, rank, path, kind):
        """kind: 'r', 'w' or 'd'"""
        for orank, oclock, okind in self.access.get(path, ()):
            if orank != rank and not (kind == "r" and okind == "r") and oclock > self.vc[rank][orank]:
                if self.race is None:
                    self.race = dict(path=path, rank=rank, access=kind, other_rank=orank, other_access=okind)
        lst = [a for a in self.access.get(path, []) if not (a[0] == rank and a[2] == kind)]
        lst.append((rank, self.vc[rank][rank], kind))
        self.access[path] = lst

    # -- collectives ------------------------------------------------------
    def collective(self, rank, name, value, root, waits_for_all, waits_for_root, keep):
        """Deposit, wait as little as the semantics allow, return the slot."""
        self.mpi_calls += 1
        self.yield_point(rank)
        k = self.seq[rank]
        self.seq[rank] += 1
        slot = self.coll.setdefault(k, dict(name=name, root=root, vals={}, clocks={}))
        if slot["name"] != name or slot["root"] != root:
            e = CollectiveMismatch(f"collective number {k}: rank {rank} calls {name}(root={root}) while another rank calls {slot['name']}(root={slot['root']})")
            raise e
        slot["vals"][rank] = pickle.loads(pickle.dumps(value)) if keep else None
        slot["clocks"][rank] = list(self.vc[rank])
        self.tick(rank)
        if waits_for_all:
            self.yield_point(rank, lambda: len(slot["vals"]) == self.size)
            for c in slot["clocks"].values():
                self.join(rank, c)
        elif waits_for_root and rank != root:
            self.yield_point(rank, lambda: root in slot["vals"])
            self.join(rank, slot["clocks"][root])
        else:
            self.yield_point(rank)
        self.tick(rank)
        return slot


def _fold(op, vals):
    out = vals[0]
    for v in vals[1:]:
        out = op(out, v)
    return out


class Comm:
    """COMM_WORLD: which world and rank it refers to depends on the calling thread."""

    def _me(self):
        w, r = current()
        if w is None:
            raise HarnessError("MPI call outside a simulated rank")
        return w, r

    rank = property(lambda self: self._me()[1])
    size = property(lambda self: self._me()[0].size)

    def Get_rank(self):
        return self.rank

    def Get_size(self):
        return self.size

    def Barrier(self):
        w, r = self._me()
        w.collective(r, "Barrier", None, None, True, False, False)

    barrier = Barrier

    def bcast(self, obj, root=0):
        w, r = self._me()
        s = w.collective(r, "bcast", obj if r == root else None, root, False, True, True)
        return obj if r == root else pickle.loads(pickle.dumps(s["vals"][root]))

    def reduce(self, obj, op=None, root=0):
        w, r = self._me()
        s = w.collective(r, "reduce", obj, root, r == root, False, True)
        return _fold(op or SUM, [s["vals"][i] for i in range(w.size)]) if r == root else None

    def allreduce(self, obj, op=None):
        w, r = self._me()
        s = w.collective(r, "allreduce", obj, None, True, False, True)
        return _fold(op or SUM, [s["vals"][i] for i in range(w.size)])

    def gather(self, obj, root=0):
        w, r = self._me()
        s = w.collective(r, "gather", obj, root, r == root, False, True)
        return [s["vals"][i] for i in range(w.size)] if r == root else None

    def allgather(self, obj):
        w, r = self._me()
        s = w.collective(r, "allgather", obj, None, True, False, True)
        return [pickle.loads(pickle.dumps(s["vals"][i])) for i in range(w.size)]

    def scatter(self, objs, root=0):
        w, r = self._me()
        s = w.collective(r, "scatter", objs if r == root else None, root, False, True, True)
        return pickle.loads(pickle.dumps(s["vals"][root][r]))

    def send(self, obj, dest, tag=0):
        w, r = self._me()
        w.mpi_calls += 1
        w.yield_point(r)
        if not 0 <= dest < w.size:
            raise ValueError(f"invalid rank {dest}")
        w.box.setdefault((r, dest), []).append((tag, pickle.dumps(obj), list(w.vc[r])))
        w.tick(r)
        w.yield_point(r)

    ssend = send

    def isend(self, obj, dest, tag=0):
        self.send(obj, dest, tag)
        return Request(lambda: None)

    def recv(self, buf=None, source=-1, tag=-1, status=None):
        w, r = self._me()
        w.mpi_calls += 1

        def find():
            out = []
            for (s, d), q in w.box.items():
                if d == r and (source in (-1, s)):
                    for i, m in enumerate(q):
                        if tag in (-1, m[0]):
                            out.append((s, i))
                            break
            return out

        w.yield_point(r, lambda: bool(find()))
        cand = find()
        s, i = cand[int(w.rng.integers(len(cand)))]  # any-source receives: any order of senders
        _, data, clock = w.box[(s, r)].pop(i)
        w.join(r, clock)
        w.tick(r)
        return pickle.loads(data)

    def irecv(self, buf=None, source=-1, tag=-1):
        return Request(lambda: self.recv(source=source, tag=tag))

    def Abort(self, errorcode=1):
        raise SystemExit(errorcode)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise HarnessError(f"MPI function {name} is not simulated")


class Request:
    def __init__(self, f):
        self.f = f

    def wait(self, status=None):
        return self.f()


def SUM(a, b):
    return a + b


def MAX(a, b):
    import numpy as np

    return np.maximum(a, b) if isinstance(a, np.ndarray) else max(a, b)


def MIN(a, b):
    import numpy as np

    return np.minimum(a, b) if isinstance(a, np.ndarray) else min(a, b)


COMM = Comm()


def install():
    """mpi4py stand-in; must come before diffmah.data_loaders.load_hacc_mahs is imported."""
    m = types.ModuleType("mpi4py")
    mpi = types.ModuleType("mpi4py.MPI")
    mpi.COMM_WORLD = COMM
    mpi.SUM, mpi.MAX, mpi.MIN = SUM, MAX, MIN
    mpi.ANY_SOURCE = mpi.ANY_TAG = -1
    mpi.Comm = mpi.Intracomm = Comm
    m.MPI = mpi
    sys.modules["mpi4py"] = m
    sys.modules["mpi4py.MPI"] = mpi


def run_ranks(world, target):
    """Run target(rank) on every rank; -> list of results. Raises the first failure."""
    results = [None] * world.size

    def main(rank):
        _tls.world, _tls.rank = world, rank
        try:
            with world.cv:
                world.started[rank] = True
                world.cv.notify_all()
                while world.running != rank and not world.abort:
                    world.cv.wait(120)
                if world.abort:
                    raise Aborted()
            results[rank] = target(rank)
        except Aborted:
            pass
        except BaseException as e:
            with world.cv:
                if world.failure is None:
                    world.failure = (rank, e)
                world.abort = True
        finally:
            with world.cv:
                world.done[rank] = True
                if not world.abort and world.running == rank:
                    world._pick()
                world.cv.notify_all()
            _tls.world = _tls.rank = None

    threads = [threading.Thread(target=main, args=(r,), daemon=True) for r in range(world.size)]
    for t in threads:
        t.start()
    with world.cv:
        while not all(world.started):
            world.cv.wait(10)
        world._pick()
        world.cv.notify_all()
    for t in threads:
        t.join(600)
        if t.is_alive():
            raise HarnessError("simulated rank did not stop")
    if world.failure is not None:
        raise world.failure[1]
    return results
