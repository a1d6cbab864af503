"""Pointing matrices and their projections (Projection.tla)."""
import numpy as np
from enc import NONINT, call, flat, num
from pyoperators import BlockColumnOperator, DiagonalOperator, HomothetyOperator
from pysimulators import (Map, PointingMatrix, ProjectionInMemoryOperator, ProjectionOnFlyOperator, Quantity, Tod)

DT = [('index', np.int32), ('value', np.float32)]
SCALE = 4


def prod(x):
    return int(np.prod(x, dtype=int))


def raw(matrix):
    """[[[index, 4 value]...]] of the flattened samples."""
    n = matrix.shape[-1]
    if matrix.dtype != np.dtype(DT) or not isinstance(matrix, PointingMatrix):
        return [[[NONINT, NONINT]]]
    i = np.asarray(matrix['index']).reshape(prod(matrix.shape[:-1]), n).tolist()
    v = np.asarray(matrix['value']).reshape(prod(matrix.shape[:-1]), n).tolist()
    return [[[int(a), num(SCALE * b)] for a, b in zip(r, s)] for r, s in zip(i, v)]


def observe(m):
    return {'rows': raw(m), 'shin': [int(_) for _ in m.shape_input], 'shout': [int(_) for _ in m.shape[:-1]]}


def array(rows, shout, n):
    a = np.zeros(tuple(shout) + (n,), DT)
    b = a.reshape(prod(shout), n)
    for s, r in enumerate(rows):
        for k, (i, v) in enumerate(r):
            b[s, k] = (i, v / SCALE)
    return a


def layout(x, kind):
    """The same values in another layout."""
    x = np.asarray(x)
    if kind == 'F':
        return np.asfortranarray(x)
    if kind == 'strided':
        y = np.zeros(tuple(2 * n for n in x.shape), x.dtype)
        z = y[tuple(slice(None, None, 2) for _ in x.shape)]
        z[...] = x
        return z
    if kind == 'float32':
        return x.astype(np.float32)
    if kind == 'int':
        return x.astype(int)
    return x.copy()


def outbuf(shape, kind):
    if kind == 'none':
        return None
    if kind == 'C':
        return np.full(shape, 77.0)
    if kind == 'F':
        return np.full(shape, 77.0, order='F')
    y = np.full(tuple(2 * n for n in shape), 77.0)
    return y[tuple(slice(None, None, 2) for _ in shape)]


def make(rows, shin, shout, n):
    return PointingMatrix(array(rows, shout, n), tuple(shin), copy=False)


class Recorder:
    def __init__(self, rnd):
        self.rnd = rnd
        self.events = []

    def row(self, np_, n, dup=True):
        k = self.rnd.choice([n, n, self.rnd.randint(0, n)])
        e = [[self.rnd.randrange(np_), self.rnd.choice([0, 1, 2, 3, 4, 8, -4, -1])] for _ in range(k)] if np_ else []
        return e + [[-1, self.rnd.choice([0, 0, 4])] for _ in range(n - len(e))]

    def new(self):
        rnd = self.rnd
        shin = [rnd.randint(1, 4) for _ in range(rnd.choice([1, 2, 2]))]
        shout = [rnd.randint(1, 4) for _ in range(rnd.choice([1, 2, 2, 2]))]
        if rnd.random() < 0.05:
            shout[0] = 0
        n = rnd.choice([0, 1, 1, 1, 2, 3, 4])
        rows = [self.row(prod(shin), n) for _ in range(prod(shout))]
        how = rnd.choice(['array', 'copy', 'zeros', 'ones', 'empty'])
        shape = tuple(shout) + (n,)
        if how in ('array', 'copy'):
            f = lambda: PointingMatrix(array(rows, shout, n), tuple(shin), copy=how == 'copy')
        elif how == 'empty':
            def f():
                m = PointingMatrix.empty(shape, tuple(shin), verbose=False)
                m[...] = array(rows, shout, n)
                return m
        else:
            f = lambda: getattr(PointingMatrix, how)(shape, tuple(shin), verbose=False)
        st, m = call(f)
        e = {'op': 'new', 'how': how, 'st': st, 'shin': shin, 'shout': shout, 'n': n, 'rows': rows}
        if st == 'ok':
            e['obs'] = observe(m)
        else:
            e['obs'], e['_msg'] = {'rows': [], 'shin': [], 'shout': []}, m
        self.events.append(e)
        if st != 'ok':
            return False
        self.n, self.m = n, m
        self.units = rnd.choice([None, ('K', 'Jy'), ('Jy', 'K'), ('K', ''), ('', 'Jy'), ('K^2', 'K')])
        kw = {}
        if self.units is not None:
            kw['units'] = self.units
        self.attr = rnd.random() < 0.5
        if self.attr:
            kw.update(attrin={'_in': 3}, attrout={'_out': 5})
        self.p = ProjectionInMemoryOperator(m, **kw)
        return True

    @property
    def npix(self):
        return prod(self.m.shape_input)

    @property
    def nsamples(self):
        return prod(self.m.shape[:-1])

    def add(self, e, st, out=None):
        e['st'] = st
        if st != 'ok':
            e['_msg'] = str(out)
        self.events.append(e)

    def fill(self):
        rows = [self.row(self.npix, self.n) for _ in range(self.nsamples)]
        st, out = call(self.m.__setitem__, Ellipsis, array(rows, self.m.shape[:-1], self.n))
        self.add({'op': 'fill', 'rows': rows, 'obs': observe(self.m)}, st, out)

    def isvalid(self):
        """Of the matrix, or of one with a wrong pixel."""
        rows = raw(self.m)
        if self.rnd.random() < 0.6 and rows and self.n:
            s, k = self.rnd.randrange(len(rows)), self.rnd.randrange(self.n)
            rows[s][k] = [self.rnd.choice([-2, -3, self.npix, self.npix + 1, self.npix - 1, -1]), 4]
        st, out = call(make(rows, self.m.shape_input, self.m.shape[:-1], self.n).isvalid)
        ok = isinstance(out, (bool, np.bool_))
        self.add({'op': 'isvalid', 'rows': rows, 'out': bool(out) if ok else str(out)}, st, out)

    def get_mask(self):
        rnd = self.rnd
        shin = tuple(self.m.shape_input)
        mask0 = [True] * self.npix
        wrong, same, out = 'no', True, None
        func = rnd.choice([self.m.get_mask, self.p.get_mask]) if self.p is not None else self.m.get_mask
        u = rnd.random()
        if u < 0.1:
            out, wrong = np.ones(shin, int), 'exc:TypeError'
        elif u < 0.2:
            out, wrong = np.ones(shin + (2,), bool), 'exc:ValueError'
        elif u < 0.6:
            mask0 = [rnd.random() < 0.6 for _ in mask0]
            out = np.array(mask0, bool).reshape(shin)
        st, mask = call(func, **({} if out is None else {'out': out}))
        if st == 'ok':
            same = out is None or mask is out
            same = same and mask.shape == shin and mask.dtype == bool
        self.add({'op': 'get_mask', 'mask0': mask0, 'wrong': wrong, 'same': same,
                  'out': [bool(v) for v in mask.ravel()] if st == 'ok' else []}, st, mask)

    def pack(self):
        rnd = self.rnd
        if rnd.random() < 0.5:
            mask = self.m.get_mask()
        else:
            mask = np.array([rnd.random() < 0.4 for _ in range(self.npix)], bool).reshape(self.m.shape_input)
        mask = layout(mask, rnd.choice(['C', 'C', 'F', 'strided']))
        before = mask.copy()
        st, out = call(self.m.pack, mask)
        self.add({'op': 'pack', 'mask': [bool(_) for _ in before.ravel()], 'intact': bool(np.all(mask == before)),
                  'obs': observe(self.m)}, st, out)
        self.p = ProjectionInMemoryOperator(self.m)
        self.units, self.attr = None, False

    def apply_mask(self):
        rnd = self.rnd
        shape = self.m.shape[:-1]
        wrong = rnd.random() < 0.1
        if wrong:
            mask = np.zeros(shape + (2,), bool)
        else:
            mask = np.array([rnd.random() < 0.4 for _ in range(self.nsamples)], bool).reshape(shape)
        mask_ = [bool(_) for _ in mask.ravel()]
        st, out = call(self.p.apply_mask, layout(mask, rnd.choice(['C', 'F', 'strided', 'int'])))
        self.add({'op': 'apply_mask', 'mask': mask_, 'wrong': wrong, 'obs': observe(self.m)}, st, out)

    def values(self, shape):
        return np.array([self.rnd.randint(-9, 9) for _ in range(prod(shape))], float).reshape(shape)

    def apply(self, op, shin, shout, e, scale=SCALE):
        rnd = self.rnd
        x = self.values(shin)
        e['x'] = flat(x)
        x = layout(x, rnd.choice(['C', 'C', 'F', 'strided', 'int', 'float32']))
        out = outbuf(shout, rnd.choice(['none', 'none', 'C', 'F', 'strided']))
        before = np.array(x)
        st, y = call(op, x) if out is None else call(op, x, out)
        e['intact'] = bool(np.all(before == x))
        e['buffer'] = True
        if st == 'ok':
            if out is not None:
                e['buffer'] = flat(y) == flat(out)
                y = out
            e['buffer'] = e['buffer'] and y.shape == tuple(shout) and y.dtype == float
        e['out'] = flat(y, lambda v: num(scale * v)) if st == 'ok' else []
        self.add(e, st, y)

    def direct(self):
        self.apply(self.p, self.m.shape_input, self.m.shape[:-1], {'op': 'direct'})

    def transpose(self):
        self.apply(self.p.T, self.m.shape[:-1], self.m.shape_input, {'op': 'transpose'})

    def ptp(self):
        st, op = call(lambda: self.p.T * self.p)
        if st != 'ok':
            return self.add({'op': 'ptp', 'x': [], 'out': [], 'intact': True}, st, op)
        self.apply(op, self.m.shape_input, self.m.shape_input, {'op': 'ptp'}, SCALE ** 2)

    def get_pTp(self):
        n = self.npix
        out = np.zeros((n, n)) if self.rnd.random() < 0.3 else None
        st, y = call(self.p.get_pTp) if out is None else call(self.p.get_pTp, out=out)
        if st == 'ok' and out is not None:
            y = out
        e = {'op': 'get_pTp', 'out': [flat(r, lambda v: num(SCALE ** 2 * v)) for r in y] if st == 'ok' else []}
        self.add(e, st, y)

    def pTx_pT1(self):
        rnd = self.rnd
        shape = self.m.shape[:-1]
        x = self.values(shape)
        e = {'op': 'pTx_pT1', 'x': flat(x)}
        mask = np.array([rnd.random() < 0.4 for _ in range(self.nsamples)], bool).reshape(shape)
        how = rnd.choice(['none', 'tod', 'argument', 'both', 'int', 'strided'])
        kw = {}
        if how == 'none':
            mask[...] = False
        elif how == 'tod':
            x = Tod(x, mask=mask)
        elif how == 'both':
            x = Tod(x, mask=~mask)
            kw['mask'] = mask
        else:
            x = layout(x, how)
            kw['mask'] = layout(mask, rnd.choice(['C', 'F', 'strided']))
        before = np.array(x)
        if rnd.random() < 0.3:
            kw['out'] = np.zeros(self.m.shape_input), np.zeros(self.m.shape_input)
        st, out = call(self.p.get_pTx_pT1, x, **kw)
        if st == 'ok' and 'out' in kw:
            out = kw['out']
        e.update(mask=[bool(_) for _ in mask.ravel()], intact=bool(np.all(before == np.asarray(x))))
        e['out'], e['cov'] = [flat(o, lambda v: num(SCALE * v)) for o in out] if st == 'ok' else ([], [])
        if st == 'ok' and any(np.asarray(o).shape != tuple(self.m.shape_input) for o in out):
            st, out = 'exc:shape', 'shape'
        self.add(e, st, out)

    def diagonal(self):
        rnd = self.rnd
        shape = self.m.shape[:-1]
        x = self.values(self.m.shape_input)
        e = {'op': 'diagonal', 'x': flat(x)}
        kind = rnd.choice(['full', 'scalar', 'leftward', 'int'])
        d = self.values(shape)
        if kind == 'scalar':
            op, e['d'] = HomothetyOperator(3), [3]
        elif kind == 'leftward' and len(shape) == 2:
            d = self.values(shape[1:])
            op, e['d'] = DiagonalOperator(d, broadcast='leftward'), flat(d)
        else:
            d = d.astype(int) if kind == 'int' else d
            op, e['d'] = DiagonalOperator(d), flat(d)
        if not e['d']:
            e['d'] = [1]
        before = np.array(d)
        ref = x.copy()

        def f():
            q = op * self.p
            y = q(x)
            unit = [0, 0]
            if self.units is not None:
                unit = exponents(q(Map(x, unit='s'))._unit)
            return y, unit

        st, out = call(f)
        e['unit'] = out[1] if st == 'ok' else []
        e['want'] = expected(self.units) if self.units is not None else [0, 0]
        e['out'] = flat(out[0], lambda v: num(SCALE * v)) if st == 'ok' else []
        e['intact'] = bool(np.all(before == d)) and bool(np.all(ref == x))
        e['obs'] = raw(self.m)
        self.add(e, st, out)

    def intersects(self):
        rnd = self.rnd
        if len(self.m.shape) != 3 or len(self.m.shape_input) != 2 or 0 in self.m.shape:
            return
        ny, nx = self.m.shape_input
        xy = rnd.randint(1, nx), rnd.randint(1, ny)
        axis = rnd.choice([None, 0, 1, -3, -2])
        st, out = call(self.p.intersects, xy, **({} if axis is None else {'axis': axis}))
        e = {'op': 'intersects', 'xy': list(xy), 'axis': {None: 'none', 0: '0', -3: '0', 1: '1', -2: '1'}[axis],
             'out': [bool(v) for v in np.ravel(out)] if st == 'ok' else []}
        self.add(e, st, out)

    def unit(self):
        if self.units is None:
            return
        rnd = self.rnd
        sign = rnd.choice([1, -1])
        u = rnd.choice([(0, 0), (0, 1), (1, 0), (2, -1)])
        shape = self.m.shape_input if sign == 1 else self.m.shape[:-1]
        cls = rnd.choice([Quantity, Map, Tod])
        x = cls(self.values(shape), unit=' '.join(f'{n}^{v}' for n, v in zip(('K', 'Jy'), u) if v))
        st, out = call(self.p if sign == 1 else self.p.T, x)
        e = {'op': 'units', 'unit': list(u), 'sign': sign, 'p': expected(self.units), 'attr': True,
             'out': exponents(out._unit) if st == 'ok' else []}
        if st == 'ok' and self.attr:
            e['attr'] = getattr(out, '_out' if sign == 1 else '_in', None) == (5 if sign == 1 else 3)
        self.add(e, st, out)

    # -- on the fly
    def group(self):
        rnd = self.rnd
        self.ids = rnd.sample([None, 0, 1, 'a', (1, 2), 1000], rnd.randint(1, 3))
        shin, ns, n = [rnd.randint(1, 3), rnd.randint(1, 3)], rnd.randint(1, 3), rnd.randint(1, 3)
        mats = [[self.row(prod(shin), n) for _ in range(ns)] for _ in self.ids]
        self.g = Group(self.ids, mats, shin, [ns], n)
        self.events.append({'op': 'group', 'mats': mats, 'np': prod(shin)})

    def use(self):
        rnd = self.rnd
        i = rnd.randrange(len(self.ids))
        d = rnd.choice(['direct', 'transpose'])
        fails = rnd.random() < 0.25
        x = self.values(self.g.shin if d == 'direct' else self.g.shout)
        st, out, calls, free = self.g.use(i, d, x, fails)
        self.events.append({'op': 'use', 'id': i + 1, 'dir': d, 'fails': fails, 'st': st, 'calls': calls, 'free': free,
                            'x': flat(x), 'out': flat(out, lambda v: num(SCALE * v)) if st == 'ok' else [],
                            **({'_msg': str(out)} if st != 'ok' else {})})

    def column(self):
        d = self.rnd.choice(['direct', 'transpose'])
        g = self.g
        x = self.values(g.shin if d == 'direct' else [len(g.ops) * g.shout[0]])
        g.fails = False
        op = BlockColumnOperator(g.ops, axisout=0)
        st, out = call(op if d == 'direct' else op.T, x)
        last = [i for i, v in enumerate(self.ids) if v is g.place['id']]
        e = {'op': 'column', 'dir': d, 'x': flat(x), 'last': (last or [-1])[0] + 1,
             'out': flat(out, lambda v: num(SCALE * v)) if st == 'ok' else []}
        self.add(e, st, out)


UNITS = {'K': [1, 0], 'Jy': [0, 1], '': [0, 0], 'K^2': [2, 0]}


def expected(units):
    return [a - b for a, b in zip(UNITS[units[0]], UNITS[units[1]])]


def exponents(unit):
    unit = dict(unit or {})
    unit.pop('s', None)
    out = [num(unit.pop(n, 0)) for n in ('K', 'Jy')]
    return out if not unit else [NONINT]


class Group:
    """On-the-fly operators which share a place."""

    def __init__(self, ids, mats, shin, shout, n):
        self.ids, self.shin, self.shout = list(ids), shin, shout
        self.place = {}
        self.calls, self.free, self.fails = 0, True, False

        def func(id):
            self.calls += 1
            self.free = self.free and self.place.get('matrix') is None
            if self.fails:
                raise RuntimeError('no pointing')
            i = [i for i, v in enumerate(self.ids) if v is id][0]
            return make(mats[i], shin, shout, n)

        self.ops = [ProjectionOnFlyOperator(self.place, i, func, shapein=tuple(shin), shapeout=tuple(shout))
                    for i in self.ids]

    def use(self, i, d, x, fails):
        self.calls, self.free, self.fails = 0, True, fails
        op = self.ops[i] if d == 'direct' else self.ops[i].T
        st, out = call(op, x)
        return st, out, self.calls, self.free
