"""Histories of acquisitions over a grid of (emulated) processes."""
import operator

import numpy as np
from enc import num
from fakecomm import Machine

from pyoperators import DiagonalOperator
from pysimulators import Acquisition, Instrument, PackedTable, Sampling, Scene
from pysimulators.operators import ProjectionOperator
from pysimulators.sparse import FSRMatrix

NONE = 99999


def ids(table):
    """The global numbers of the components of a table."""
    i = table.index
    if isinstance(i, slice) or i is Ellipsis:
        return np.arange(int(np.prod(table.shape[:table.ndim], dtype=int)))[i].ravel().tolist()
    return np.asarray(i).ravel().tolist()


def coef(d, t):
    return 1 + (d + 2 * t) % 5


class Camera(Instrument):
    """An instrument which knows what each detector does for each sampling."""

    npix = 7

    def get_operator(self, sampling, scene):
        ds, ts, ps = ids(self.detector), ids(sampling), ids(scene)
        m = FSRMatrix((len(ds) * len(ts), len(ps)), ncolmax=1, dtype=float, dtype_index=np.int32)
        data = m.data.reshape(len(ds), len(ts), 1)
        for i, d in enumerate(ds):
            for j, t in enumerate(ts):
                p = (3 * d + 2 * t) % self.npix
                data[i, j, 0].index = ps.index(p) if p in ps else -1
                data[i, j, 0].value = coef(d, t)
        return ProjectionOperator(m, shapein=(len(ps),), shapeout=(len(ds), len(ts)))

    def table(self, sampling, func):
        ds, ts = ids(self.detector), ids(sampling)
        return np.array([[func(d, t) for t in ts] for d in ds], float).reshape(len(ds), len(ts))

    def get_noise(self, sampling, out=None, operation=None):
        n = self.table(sampling, lambda d, t: 100 * d + t)
        if out is None:
            return n
        operation(out, n)
        return out

    def get_invntt_operator(self, sampling):
        w = self.table(sampling, lambda d, t: 1 + (2 * d + t) % 3)
        return DiagonalOperator(w, broadcast='disabled')


def rows(x):
    """Rows of integers."""
    x = np.asarray(x)
    if x.ndim != 2:
        return [[-999999002]]
    return [[num(_) for _ in r] for r in x.tolist()]


def blocks(acq):
    f = lambda x: NONE if x is None else int(x)
    return [[f(b.start), f(b.stop)] for b in acq.block]


def describe(acq):
    return {'dets': ids(acq.instrument.detector), 'samps': ids(acq.sampling), 'pixs': ids(acq.scene),
            'size': acq.comm.size, 'blocks': blocks(acq)}


FORMS = {'all': slice(None), '1:': slice(1, None), '::-1': slice(None, None, -1), '::2': slice(None, None, 2),
         '0': 0, '[0, 0]': [0, 0]}


class World:
    """The processes of a history; registers of acquisitions, one per process."""

    def __init__(self, n, seed=0):
        self.machine = Machine(n, seed, timeout=30)
        self.n = n
        self.regs = []
        self.stuck = False

    def run(self, func):
        """(statuses, results)"""
        res = self.machine.run(func)
        sts = ['ok' if s == 'ok' else 'exc:' + type(v).__name__ for s, v in res]
        if any(s != 'ok' for s in sts):
            self.stuck = True
        return sts, [v if s == 'ok' else None for s, v in res]

    def create(self, det, nt, npix, ni, ns, block, limit):
        cls = type('Camera', (Camera,), {'npix': npix})

        def func(rank):
            kw = {} if block is None else {'block': block}
            if limit is not None:
                kw['max_nbytes'] = limit
            return Acquisition(
                cls(det()), Sampling(nt, period=1.0), Scene(npix), nprocs_instrument=ni,
                nprocs_sampling=ns, comm=self.machine.comms[rank], **kw)

        return self.run(func)


def build(path, nd, nt, npix):
    """The acquisitions at the end of a path of the model."""
    c = path[0]
    w = World(c['n'])
    f = lambda x: None if x == NONE else x
    block = [slice(*b) for b in c['block']] or None
    if block is None:
        block = None
    sts, acqs = w.create(lambda: PackedTable(nd), nt, npix, f(c['ni']), f(c['ns']), block, None)
    for forms in path[1:]:
        if w.stuck:
            break
        key = tuple(FORMS[_] for _ in forms)

        def func(rank):
            acqs[rank].get_operator()      # a selection does not depend on what was computed
            return acqs[rank][key]

        sts, acqs = w.run(func)
    return w, sts, acqs


def values(acq):
    """The operator applied to the numbers of the pixels plus one, and transposed."""
    H = acq.get_operator()
    y = H(np.array(ids(acq.scene), float) + 1)
    return {'y': rows(y), 'z': [num(_) for _ in H.T(y)]}


class Recorder:
    def __init__(self, rnd):
        self.rnd = rnd
        self.events = []
        self.w = World(rnd.choice([1, 1, 2, 2, 3, 4, 4, 6]), rnd.randrange(1000))
        self.regs = []

    def add(self, op, sts, **kw):
        kw = {k: [[] if x is None else x for x in v] if k in ('res', 'buf') else v for k, v in kw.items()}
        self.events.append({'op': op, 'sts': sts, **kw})
        return all(s == 'ok' for s in sts)

    # -- creation -------------------------------------------------------
    def detector(self):
        rnd = self.rnd
        shape = rnd.choice([(1,), (2,), (3,), (4,), (2, 2), (2, 3), (5,), (0,)])
        n = int(np.prod(shape))
        kind = rnd.random()
        if kind < 0.5 or n == 0:
            return (lambda: PackedTable(shape)), list(range(n)), shape
        if kind < 0.75:
            if len(shape) > 1:
                mask = np.array([rnd.random() < 0.6 for _ in range(n)]).reshape(shape)
                return (lambda: PackedTable(shape, selection=mask)), np.flatnonzero(mask).tolist(), shape
            sel = rnd.sample(range(n), rnd.randint(1, n))
            return (lambda: PackedTable(shape, selection=sel)), sel, shape
        order = list(range(n))
        rnd.shuffle(order)
        arr = np.empty(n, int)
        arr[order] = range(n)
        return (lambda: PackedTable(shape, ordering=arr.reshape(shape))), order, shape

    def create(self, dst):
        rnd, n = self.rnd, self.w.n
        func, dets, shape = self.detector()
        nt, npix = rnd.choice([0, 1, 2, 3, 4, 5, 6, 7]), rnd.choice([1, 2, 5, 7])
        ni = rnd.choice([None, None] + list(range(0, n + 2)))
        ns = rnd.choice([None, None] + list(range(0, n + 2)))
        if rnd.random() < 0.6:
            pairs = [(a, n // a) for a in range(1, n + 1) if n % a == 0]
            ni, ns = rnd.choice(pairs)
            if rnd.random() < 0.6:
                if rnd.random() < 0.5:
                    ni = None
                else:
                    ns = None
        block = limit = None
        kind = rnd.random()
        if kind < 0.4:
            cuts = sorted(rnd.randint(0, nt) for _ in range(rnd.randint(0, 3)))
            cuts = [0] + cuts + [nt]
            block = [slice(a, b) for a, b in zip(cuts, cuts[1:])]
            if rnd.random() < 0.3:
                block[0] = slice(None, block[0].stop)
            if rnd.random() < 0.3:
                block[-1] = slice(block[-1].start, None)
            if rnd.random() < 0.5:
                block = tuple(block)
        elif kind < 0.65:
            limit = rnd.choice([1, 12, 24, 30, 50, 100, 1000])
        sts, acqs = self.w.create(func, nt, npix, ni, ns, block, limit)
        f = lambda x: NONE if x is None else x
        ok = self.add('create', sts, n=n, ni=f(ni), ns=f(ns), dets=dets, nt=nt, np=npix, dst=dst + 1,
                      limit=f(limit), nbytes=12, obs=[describe(a) if a is not None else {} for a in acqs])
        if ok:
            reg = {'acqs': acqs, 'np': npix, 'size': int(np.prod(shape)), 'shape': shape, 'whole': True}
            self.put(dst, reg)
        return ok

    def put(self, dst, reg):
        if dst == len(self.regs):
            self.regs.append(reg)
        else:
            self.regs[dst] = reg

    def dst(self):
        return len(self.regs) if len(self.regs) < 3 else self.rnd.randrange(3)

    def badblock(self):
        bad = self.rnd.choice([slice(0, 1), 3, [1, 2], 'ab', [slice(0, 1), 2], np.arange(2)])
        sts, _ = self.w.create(lambda: PackedTable(2), 3, 2, None, None, bad, None)
        return self.add('badblock', sts)

    # -- selections -----------------------------------------------------
    def form(self, lens, colon=0.3):
        rnd = self.rnd
        m = min(lens)
        if rnd.random() < colon:
            return slice(None)
        kind = rnd.randrange(6)
        if kind == 0 and m > 0:
            k = rnd.randrange(-m, m)
            return k if rnd.random() < 0.5 else np.int64(k)
        if kind == 1 and m > 0:
            k = [rnd.randrange(-m, m) for _ in range(rnd.randint(1, 2 * m + 1))]
            return k if rnd.random() < 0.5 else np.array(k)
        if kind == 2 and len(set(lens)) == 1 and m > 0:
            return np.array([rnd.random() < 0.6 for _ in range(m)])
        b = lambda: rnd.choice([None, None] + list(range(-m - 1, m + 2)))
        k = slice(b(), b(), rnd.choice([None, None, 1, 2, -1, -2]))
        return slice(0, None) if k == slice(None) else k

    def select(self, a, dst):
        rnd, reg = self.rnd, self.regs[a]
        acqs = reg['acqs']
        lens = [[len(x.instrument) for x in acqs], [len(x.sampling) for x in acqs], [len(x.scene) for x in acqs]]
        forms = [self.form(lens[0]), self.form(lens[1]), slice(None)]
        if rnd.random() < 0.4 and min(lens[2]) > 0:
            p = list(range(min(lens[2])))
            rnd.shuffle(p)
            forms[2] = rnd.choice([p[:rnd.randint(1, len(p))], slice(0, rnd.randint(1, len(p))),
                                   slice(None, None, 2), rnd.randrange(min(lens[2]))])
        key = tuple(forms)
        full = lambda f: isinstance(f, slice) and f == slice(None)
        if full(forms[2]):
            key = key[:2]
            if full(forms[1]) and rnd.random() < 0.7:
                key = forms[0]
        elif full(forms[0]) and full(forms[1]) and rnd.random() < 0.6:
            key = (Ellipsis, forms[2])
        elif full(forms[0]) and rnd.random() < 0.3:
            key = (Ellipsis,) + key[1:]
        if rnd.random() < 0.5:
            self.w.run(lambda r: acqs[r].get_operator())

        def pos(f, n):
            return [] if full(f) else [np.atleast_1d(np.arange(n)[f]).tolist()]

        sels = [{'d': pos(forms[0], lens[0][r]), 't': pos(forms[1], lens[1][r]), 'p': pos(forms[2], lens[2][r])}
                for r in range(self.w.n)]
        sts, new = self.w.run(lambda r: acqs[r][key])
        ok = self.add('select', sts, a=a + 1, dst=dst + 1, sels=sels, key=str(key),
                      obs=[describe(x) if x is not None else {} for x in new],
                      old=[describe(x) for x in acqs])
        if ok:
            self.put(dst, {**reg, 'acqs': new})
        return ok

    def badselect(self, a):
        acqs = self.regs[a]['acqs']
        n = max(len(x.instrument) for x in acqs)
        key = self.rnd.choice([(0, 0, 0, 0), (slice(None),) * 4, n, -n - 1, 'a'])
        sts, _ = self.w.run(lambda r: acqs[r][key])
        return self.add('badselect', sts, key=str(key))

    # -- computations ---------------------------------------------------
    def xs(self, a, same=False):
        rnd = self.rnd
        lens = [len(x.scene) for x in self.regs[a]['acqs']]
        x = [rnd.randint(-9, 9) for _ in range(max(lens))]
        return [x[:n] for n in lens]

    def ys(self, a):
        rnd = self.rnd
        return [[[rnd.randint(-9, 9) for _ in range(len(x.sampling))] for _ in range(len(x.instrument))]
                for x in self.regs[a]['acqs']]

    def array(self, acq, y):
        return np.array(y, float).reshape(len(acq.instrument), len(acq.sampling))

    def direct(self, a):
        acqs, x = self.regs[a]['acqs'], self.xs(a)
        sts, res = self.w.run(lambda r: rows(acqs[r].get_operator()(np.array(x[r], float))))
        return self.add('direct', sts, a=a + 1, x=x, np=self.regs[a]['np'], res=res)

    def transpose(self, a):
        acqs, y = self.regs[a]['acqs'], self.ys(a)
        sts, res = self.w.run(
            lambda r: [num(_) for _ in acqs[r].get_operator().T(self.array(acqs[r], y[r]))])
        return self.add('transpose', sts, a=a + 1, y=y, np=self.regs[a]['np'], res=res)

    def noise(self, a):
        acqs, y, kind = self.regs[a]['acqs'], self.ys(a), self.rnd.randrange(3)

        def func(r):
            if kind == 0:
                return rows(acqs[r].get_noise())
            out = self.array(acqs[r], y[r])
            res = (acqs[r].get_noise(out=out, operation=operator.iadd) if kind == 1
                   else acqs[r].get_noise(out=out))
            return rows(out) if res is out else [[-1]]

        sts, res = self.w.run(func)
        return self.add('noise', sts, a=a + 1, y=y, add=kind == 1, res=res)

    def observe(self, a):
        acqs, y, x, kind = self.regs[a]['acqs'], self.ys(a), self.xs(a), self.rnd.randrange(3)
        noiseless = self.rnd.random() < 0.5

        def func(r):
            x_ = np.array(x[r], float)
            if kind == 0:
                return rows(acqs[r].get_observation(x_, noiseless=noiseless))
            out = self.array(acqs[r], y[r])
            kw = {'operation': operator.iadd} if kind == 1 else {}
            acqs[r].get_observation(x_, noiseless, out=out, **kw)
            return rows(out)

        sts, res = self.w.run(func)
        return self.add('observe', sts, a=a + 1, x=x, y=y, np=self.regs[a]['np'], noiseless=noiseless,
                        add=kind == 1, res=res)

    def weight(self, a):
        acqs, y = self.regs[a]['acqs'], self.ys(a)
        sts, res = self.w.run(lambda r: rows(acqs[r].get_invntt_operator()(self.array(acqs[r], y[r]))))
        return self.add('weight', sts, a=a + 1, y=y, res=res)

    def pack(self, a):
        reg = self.regs[a]
        acqs = reg['acqs']
        x = [self.rnd.randint(-99, 99) for _ in range(reg['size'])]
        withbuf = self.rnd.random() < 0.5

        def func(r):
            x_ = np.array(x, float).reshape(reg['shape'])
            obj = acqs[r]
            if not withbuf:
                return [num(_) for _ in obj.instrument.pack(x_)], True
            out = np.zeros(len(obj.instrument))
            obj.pack(x_, out=out)
            return [num(_) for _ in out], True

        sts, res = self.w.run(func)
        return self.add('pack', sts, a=a + 1, x=x, res=[v and v[0] for v in res], buf=[v and v[1] for v in res])

    def unpack(self, a):
        reg = self.regs[a]
        acqs = reg['acqs']
        if any(len(set(ids(x.instrument.detector))) != len(x.instrument) for x in acqs):
            return True
        v = [[self.rnd.randint(-99, 99) for _ in range(len(x.instrument))] for x in acqs]
        withbuf = self.rnd.random() < 0.5

        def func(r):
            v_ = np.array(v[r], float)
            if not withbuf:
                u = acqs[r].unpack(v_, missing_value=-1)
            else:
                u = np.full(reg['shape'], 5.0)
                acqs[r].unpack(v_, out=u, missing_value=-1)
            return [num(_) for _ in u.ravel()], u.shape == tuple(reg['shape'])

        sts, res = self.w.run(func)
        return self.add('unpack', sts, a=a + 1, v=v, size=reg['size'], missing=-1,
                        res=[x and x[0] for x in res], buf=[x and x[1] for x in res])

    def parts(self, a):
        acqs = self.regs[a]['acqs']
        m = self.rnd.randint(0, 4)

        def func(r):
            i = acqs[r].instrument
            return [ids(p.detector) for p in (i.split(m) if m else i)]

        sts, res = self.w.run(func)
        return self.add('parts', sts, a=a + 1, m=m, res=res)

    def nbytes(self, a):
        acqs = self.regs[a]['acqs']
        sts, res = self.w.run(lambda r: num(acqs[r].get_operator_nbytes()))
        return self.add('nbytes', sts, a=a + 1, nbytes=12, res=res)

    def scatter(self, a):
        acqs = self.regs[a]['acqs']
        shared = [x.instrument.comm.size > 1 for x in acqs]
        if not all(shared):
            return True
        sts, _ = self.w.run(lambda r: acqs[r].instrument.scatter(self.w.machine.comms[r]) and None)
        return self.add('scatter', sts, a=a + 1, shared=True)
