"""
MPI processes as threads of this process, with the collective operations that
pysimulators and pyoperators use.

Every collective is two phases around a barrier: each rank deposits its contribution,
then each rank reads those of all the others.  The raw-buffer collectives honour
counts and displacements literally (in units of the buffer's items), so that a wrong
count or offset has the effect it would have with an MPI library.  The order in which
ranks go through the phases is perturbed by a seeded scheduler.
"""
import threading
import time

import numpy as np


# pyoperators and NumPy's global state are not meant to be shared by threads: only one
# process runs at a time, the turn is passed while waiting in the collectives.
TURN = threading.Lock()
ON_START = []    # to be called by each new process


class FakeMPIError(Exception):
    pass


class _Barrier:
    """A barrier whose breaking does not affect the processes that have met already."""

    def __init__(self, size):
        self.size = size
        self.cond = threading.Condition()
        self.count = self.generation = 0
        self.broken = False

    def wait(self, timeout):
        with self.cond:
            if self.broken:
                raise threading.BrokenBarrierError
            generation = self.generation
            self.count += 1
            if self.count == self.size:
                self.count = 0
                self.generation += 1
                self.cond.notify_all()
                return
            self.cond.wait_for(lambda: self.broken or self.generation != generation, timeout)
            if self.generation == generation:
                self.broken = True
                self.cond.notify_all()
                raise threading.BrokenBarrierError

    def abort(self):
        with self.cond:
            self.broken = True
            self.cond.notify_all()


class _World:
    def __init__(self, size, seed=0, timeout=60):
        self.size = size
        self.timeout = timeout
        self.barrier = _Barrier(size)
        self.slots = [None] * size
        self.children = {}
        self.lock = threading.Lock()
        self.ncalls = [0] * size
        self.log = []
        self.seed = seed


def _buffer(x):
    """(array, counts/offsets or None)"""
    spec = None
    if isinstance(x, (list, tuple)):
        x, *rest = x
        for r in rest:
            if isinstance(r, (list, tuple)):
                spec = r
    return np.asarray(x), spec


class FakeComm:
    def __init__(self, world, rank):
        self._world = world
        self.rank = rank
        self.size = world.size

    # no deep copy of a communicator
    def __deepcopy__(self, memo):
        raise FakeMPIError('Communicators cannot be deep-copied.')

    def Get_rank(self):
        return self.rank

    def Get_size(self):
        return self.size

    def _jitter(self):
        w = self._world
        if w.seed:
            k = w.ncalls[self.rank]
            r = (hash((w.seed, self.rank, k)) & 0xFF) / 255.0
            if r > 0.6:
                TURN.release()
                time.sleep(r * 1e-3)
                TURN.acquire()

    def _wait(self):
        if self._world.size == 1:
            return
        TURN.release()
        try:
            self._world.barrier.wait(self._world.timeout)
        finally:
            TURN.acquire()

    def _exchange(self, name, x):
        w = self._world
        w.ncalls[self.rank] += 1
        self._jitter()
        w.slots[self.rank] = (name, x)
        try:
            self._wait()
            slots = list(w.slots)
            self._jitter()
            self._wait()
        except threading.BrokenBarrierError:
            raise FakeMPIError(f'{name}: another process failed or did not call.')
        names = {s[0] for s in slots}
        if len(names) != 1:
            raise FakeMPIError(f'Mismatched collective operations: {sorted(names)}')
        return [s[1] for s in slots]

    def Barrier(self):
        self._exchange('Barrier', None)

    barrier = Barrier

    def allgather(self, x):
        return self._exchange('allgather', x)

    def bcast(self, x=None, root=0):
        return self._exchange('bcast', x)[root]

    def gather(self, x, root=0):
        out = self._exchange('gather', x)
        return out if self.rank == root else None

    def allreduce(self, x, op=None):
        xs = self._exchange('allreduce', x)
        return sum(xs[1:], xs[0])

    def Allgatherv(self, send, recv):
        src, _ = _buffer(send)
        parts = self._exchange('Allgatherv', np.array(src).ravel())
        dst, spec = _buffer(recv)
        out = dst.reshape(-1)
        if out.size and not np.shares_memory(out, dst):
            raise FakeMPIError('The receive buffer is not contiguous.')
        if spec is None:
            counts = [p.size for p in parts]
            offsets = np.concatenate([[0], np.cumsum(counts)[:-1]])
        else:
            counts, offsets = spec
        for r, p in enumerate(parts):
            if p.size != counts[r]:
                raise FakeMPIError('Allgatherv: message truncated or too short.')
            if offsets[r] < 0 or offsets[r] + counts[r] > out.size:
                raise FakeMPIError('Allgatherv: write out of the receive buffer.')
            out[offsets[r]:offsets[r] + counts[r]] = p

    Allgather = Allgatherv

    def Allreduce(self, send, recv, op=None):
        dst, _ = _buffer(recv)
        src = dst if not isinstance(send, (np.ndarray, list, tuple)) else _buffer(send)[0]
        parts = self._exchange('Allreduce', np.array(src))
        if any(p.shape != dst.shape or p.dtype != dst.dtype for p in parts):
            raise FakeMPIError('Allreduce: incompatible buffers.')
        dst[...] = sum(parts[1:], parts[0])

    def Dup(self):
        return self._derive(('dup',), list(range(self.size)))

    def _derive(self, key, members):
        """Communicator of ``members`` (ranks of this one), made once per group."""
        w = self._world
        n = w.ncalls[self.rank]
        self._exchange('derive', None)
        with w.lock:
            k = (n, key, tuple(members))
            if k not in w.children:
                w.children[k] = _World(len(members), w.seed, w.timeout)
            child = w.children[k]
        return FakeComm(child, members.index(self.rank))

    def Split(self, color=0, key=0):
        xs = self._exchange('Split', (color, key))
        members = sorted(
            (r for r in range(self.size) if xs[r][0] == color), key=lambda r: (xs[r][1], r)
        )
        return self._derive(('split', color), members)

    def Create_cart(self, dims, periods=None, reorder=False):
        if int(np.prod(dims)) != self.size:
            raise FakeMPIError('Create_cart: incompatible dimensions.')
        base = self._derive(('cart', tuple(int(_) for _ in dims)), list(range(self.size)))
        return FakeCart(base._world, base.rank, [int(_) for _ in dims])

    def Free(self):
        pass


class FakeCart(FakeComm):
    def __init__(self, world, rank, dims):
        FakeComm.__init__(self, world, rank)
        self.dims = dims
        self.coords = [int(_) for _ in np.unravel_index(rank, dims)]

    @property
    def topo(self):
        return self.dims, [0] * len(self.dims), self.coords

    def Get_topo(self):
        return self.topo

    def Get_coords(self, rank):
        return [int(_) for _ in np.unravel_index(rank, self.dims)]

    def Sub(self, remain):
        members = [
            r for r in range(self.size)
            if all(k or c == d for k, c, d in zip(remain, self.Get_coords(r), self.coords))
        ]
        fixed = tuple(-1 if k else c for k, c in zip(remain, self.coords))
        base = self._derive(('sub', tuple(map(bool, remain)), fixed), members)
        return FakeCart(base._world, base.rank,
                        [d for d, k in zip(self.dims, remain) if k])


def spmd(size, func, seed=0, timeout=60):
    """
    Run func(comm) on ``size`` processes; returns the list of ('ok', result) or
    ('exc', exception).
    """
    world = _World(size, seed, timeout)
    results = [None] * size

    def abort(w):
        w.barrier.abort()
        for c in list(w.children.values()):
            abort(c)

    def target(rank):
        TURN.acquire()
        for f in ON_START:
            f()
        try:
            results[rank] = ('ok', func(FakeComm(world, rank)))
        except Exception as exc:
            results[rank] = ('exc', exc)
            abort(world)
        finally:
            TURN.release()

    if size == 1:
        target(0)
        return results
    threads = [threading.Thread(target=target, args=(r,), daemon=True) for r in range(size)]
    for t in threads:
        t.start()
    for t in threads:
        t.join(timeout + 30)
    return [('exc', FakeMPIError('deadlock')) if r is None else r for r in results]


class Machine:
    """Processes whose state outlives a parallel section."""

    def __init__(self, size, seed=0, timeout=60):
        self.world = _World(size, seed, timeout)
        self.comms = [FakeComm(self.world, r) for r in range(size)]
        self.size = size

    def run(self, func, timeout=60):
        """('ok', func(rank)) or ('exc', exception) for each process."""
        results = [None] * self.size

        def abort(w):
            w.barrier.abort()
            for c in list(w.children.values()):
                abort(c)

        def target(rank):
            TURN.acquire()
            for f in ON_START:
                f()
            try:
                results[rank] = ('ok', func(rank))
            except Exception as exc:
                results[rank] = ('exc', exc)
                abort(self.world)
            finally:
                TURN.release()

        if self.size == 1:
            target(0)
            return results
        threads = [threading.Thread(target=target, args=(r,), daemon=True) for r in range(self.size)]
        for t in threads:
            t.start()
        for t in threads:
            t.join(timeout)
        return [('exc', FakeMPIError('deadlock')) if r is None else r for r in results]
