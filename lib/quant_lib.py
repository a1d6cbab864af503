"""NumPy functions applied to quantities: table of operations, recording of histories."""
import math
from fractions import Fraction

import numpy as np
from enc import NONINT, call
from pysimulators import Quantity
from units_lib import exponents, plain, string, tokens

BIG = -999999004
LOCAL = {'n': 'ua', 'L': round(1e5 * math.log(4)), 'toks': [{'op': '*', 'n': 'm', 'e': 12}]}


def du():
    return {'ua': Quantity(4.0, 'm')}


# ---- the operations: name -> generator(rnd) of (shapes, function) ---------------------
V, W, M, SQ, C3, S = (3,), (4,), (2, 3), (2, 2), (2, 2, 2), ()
SHAPES = [S, V, W, M, SQ]
OPS = {}


def op(*names):
    def deco(f):
        for n in names:
            OPS[n] = lambda rnd, n=n: f(n, rnd)
        return f
    return deco


def bshapes(rnd):
    """Two shapes that broadcast."""
    return rnd.choice([(V, V), (V, S), (S, V), (S, S), (M, M), (M, V), (V, M), (SQ, SQ), (M, S),
                       ((2, 1), V), (W, W)])


@op('absolute', 'fabs', 'conjugate', 'negative', 'positive', 'rint', 'floor', 'ceil', 'trunc',
    'square', 'reciprocal', 'modf')
def _(n, rnd):
    f = getattr(np, n)
    alt = {'negative': lambda x: -x, 'absolute': abs, 'positive': lambda x: +x,
           'square': lambda x: np.power(x, 2), 'conjugate': lambda x: x.conj()}.get(n)
    return (rnd.choice(SHAPES),), (alt if alt and rnd.random() < 0.3 else f)


@op('sqrt', 'cbrt')
def _(n, rnd):
    return (rnd.choice(SHAPES),), getattr(np, n)


def _swap(o):
    return {'add': lambda x, y: x + y, 'subtract': lambda x, y: x - y,
            'multiply': lambda x, y: x * y, 'divide': lambda x, y: x / y,
            'remainder': lambda x, y: x % y, 'floor_divide': lambda x, y: x // y,
            'equal': lambda x, y: x == y, 'not_equal': lambda x, y: x != y,
            'less': lambda x, y: x < y, 'less_equal': lambda x, y: x <= y,
            'greater': lambda x, y: x > y, 'greater_equal': lambda x, y: x >= y,
            'divmod': divmod}.get(o)


@op('add', 'subtract', 'maximum', 'minimum', 'fmax', 'fmin', 'fmod', 'remainder', 'hypot', 'equal',
    'not_equal', 'less', 'less_equal', 'greater', 'greater_equal', 'arctan2', 'divmod', 'copysign',
    'multiply', 'divide', 'floor_divide')
def _(n, rnd):
    f = _swap(n)
    return bshapes(rnd), (f if f and rnd.random() < 0.5 else getattr(np, n))


@op('clip')
def _(n, rnd):
    s = rnd.choice([V, M, S, W])
    lim = rnd.choice([S, S, s])
    if rnd.random() < 0.3:
        return (s, lim, lim), (lambda x, y, z: np.clip(x, y, z))
    return (s, lim, lim), np._core.umath.clip


@op('method.clip')
def _(n, rnd):
    return (rnd.choice([V, M, W]), S, S), lambda x, y, z: x.clip(y, z)


def _axis(rnd, s, none=True):
    return rnd.choice([None] * (3 if none else 0) + list(range(-len(s), len(s))))


@op('add.reduce', 'maximum.reduce', 'minimum.reduce', 'multiply.reduce')
def _(n, rnd):
    s = rnd.choice([V, M, SQ])
    u = getattr(np, n.split('.')[0])
    ax = _axis(rnd, s)
    return (s,), lambda x: u.reduce(x, axis=ax)


@op('add.accumulate', 'minimum.accumulate')
def _(n, rnd):
    s = rnd.choice([V, M])
    u = getattr(np, n.split('.')[0])
    ax = _axis(rnd, s, False)
    return (s,), lambda x: u.accumulate(x, axis=ax)


@op('add.reduceat')
def _(n, rnd):
    return (W,), lambda x: np.add.reduceat(x, [0, 2])


@op('add.outer', 'subtract.outer', 'maximum.outer', 'multiply.outer', 'divide.outer')
def _(n, rnd):
    u = getattr(np, n.split('.')[0])
    return (rnd.choice([V, W]), rnd.choice([V, W])), u.outer


@op('matmul')
def _(n, rnd):
    return rnd.choice([(M, V), (SQ, SQ), (V, V), (SQ, M)]), \
        (np.matmul if rnd.random() < 0.5 else lambda x, y: x @ y)


@op('vecdot')
def _(n, rnd):
    return rnd.choice([(V, V), (M, V), (M, M)]), np.vecdot


@op('matvec')
def _(n, rnd):
    return (M, V), np.matvec


@op('vecmat')
def _(n, rnd):
    return ((2,), M), np.vecmat


for _n in ('vecdot', 'matvec', 'vecmat'):
    if getattr(np, _n, None) is None:
        del OPS[_n]

POWERS = {24: 2, 12: 1, 36: 3, -12: -1, -24: -2, 0: 0, 6: 0.5}


@op('sum', 'mean', 'min', 'max', 'ptp', 'median', 'std', 'nansum', 'nanmean', 'nanmin', 'nanmax',
    'nanmedian', 'nanstd', 'var', 'nanvar', 'prod', 'average')
def _(n, rnd):
    s = rnd.choice([V, M, SQ, W])
    ax = _axis(rnd, s)
    kw = {}
    f = {'max': np.amax, 'min': np.amin}.get(n, getattr(np, n)) if rnd.random() < 0.5 else getattr(np, n)
    if n not in ('average',) and rnd.random() < 0.25:
        kw['keepdims'] = True
    if n in ('std', 'var') and rnd.random() < 0.3:
        kw['ddof'] = 1
    if n == 'average' and rnd.random() < 0.5:
        w = [rnd.choice([1, 2, 3]) for _ in range(int(np.prod(s)))]
        kw['weights'] = np.reshape(w, s)
    return (s,), lambda x: f(x, axis=ax, **kw)


@op('average2')
def _(n, rnd):
    return (rnd.choice([V, M]),), lambda x: np.average(x, returned=True)


@op('cumsum', 'nancumsum', 'cumulative_sum')
def _(n, rnd):
    s = rnd.choice([V, M])
    ax = _axis(rnd, s, n != 'cumulative_sum')
    return (s,), lambda x: getattr(np, n)(x, axis=ax)


if not hasattr(np, 'cumulative_sum'):
    del OPS['cumulative_sum']


def simple(n, shapes, *fs):
    OPS[n] = lambda rnd: ((rnd.choice(shapes),), rnd.choice(fs))


simple('sort', [V, W], np.sort, lambda x: np.sort(x, axis=-1))
OPS['sort'] = lambda rnd: ((rnd.choice([V, M, W]),), lambda x: np.sort(x))
simple('partition', [V, W], lambda x: np.partition(x, 1))
simple('flip', [V, M], np.flip, lambda x: np.flip(x, 0))
simple('fliplr', [M], np.fliplr)
simple('flipud', [M], np.flipud)
simple('roll', [V, M], lambda x: np.roll(x, 1), lambda x: np.roll(x, -1, axis=0))
simple('rollaxis', [M], lambda x: np.rollaxis(x, 1))
simple('moveaxis', [M], lambda x: np.moveaxis(x, 0, 1))
simple('repeat', [V, S], lambda x: np.repeat(x, 2), lambda x: np.repeat(x, 3))
simple('tile', [V, M], lambda x: np.tile(x, 2), lambda x: np.tile(x, (2, 1)))
simple('take', [V, W], lambda x: np.take(x, [0, 2, 2]), lambda x: np.take(x, 1))
simple('take_along_axis', [V], lambda x: np.take_along_axis(x, np.array([2, 0]), 0))
simple('diff', [V, W, M], np.diff, lambda x: np.diff(x, axis=0))
simple('reshape', [M, (6,)], lambda x: np.reshape(x, (3, 2)), lambda x: np.reshape(x, -1))
simple('ravel', [M, V], np.ravel, lambda x: np.ravel(x, order='F'))
simple('resize', [V, M], lambda x: np.resize(x, (2, 2)), lambda x: np.resize(x, 7))
simple('transpose', [M, SQ], np.transpose, lambda x: np.transpose(x, (1, 0)))
simple('permute_dims', [M], lambda x: np.permute_dims(x, (1, 0)))
simple('swapaxes', [M], lambda x: np.swapaxes(x, 0, 1))
simple('squeeze', [(1, 3), (2, 1)], np.squeeze)
simple('expand_dims', [V, M], lambda x: np.expand_dims(x, 0), lambda x: np.expand_dims(x, -1))
simple('diag', [V, SQ], np.diag)
simple('diagflat', [V, SQ], np.diagflat)
simple('diagonal', [SQ, M], np.diagonal)
simple('trace', [SQ, M], np.trace)
simple('unique_values', [V, M], np.unique_values)
simple('copy', [V, M, S], np.copy)
simple('around', [V, M], np.around, lambda x: np.around(x, 1))
simple('round', [V, M], np.round, lambda x: np.round(x, 1))
simple('fix', [V, M], np.fix)
simple('broadcast_to', [V, S], lambda x: np.broadcast_to(x, (2, 3)))
simple('compress', [V], lambda x: np.compress([True, False, True], x))
simple('extract', [V], lambda x: np.extract([True, False, True], x))
simple('delete', [V, W], lambda x: np.delete(x, 1), lambda x: np.delete(x, [0, 2]))
simple('pad', [V, M], lambda x: np.pad(x, 1), lambda x: np.pad(x, 1, mode='edge'))
simple('rot90', [M], np.rot90)
simple('real', [V, M], np.real)
simple('imag', [V, M], np.imag)
simple('real_if_close', [V], np.real_if_close)
simple('nan_to_num', [V, M], np.nan_to_num)
simple('trim_zeros', [W], np.trim_zeros)
simple('atleast_1d', [S, V, M], np.atleast_1d)
simple('atleast_2d', [S, V, M], np.atleast_2d)
simple('atleast_3d', [S, V, M], np.atleast_3d)
simple('unique', [V, M, W], np.unique, lambda x: np.unique(x, return_counts=True),
       lambda x: np.unique(x, return_index=True, return_inverse=True))
simple('unique_all', [V, M], lambda x: tuple(np.unique_all(x)))
simple('split', [W, (6,)], lambda x: np.split(x, 2), lambda x: np.split(x, [1, 3]))
simple('array_split', [V, W, M], lambda x: np.array_split(x, 2), lambda x: np.array_split(x, 3))
simple('hsplit', [W, SQ], lambda x: np.hsplit(x, 2))
simple('vsplit', [SQ, M], lambda x: np.vsplit(x, 2))
simple('dsplit', [C3], lambda x: np.dsplit(x, 2))
if hasattr(np, 'unstack'):
    simple('unstack', [M, SQ], lambda x: np.unstack(x), lambda x: np.unstack(x, axis=1))
simple('fill', [V, M], lambda x: np.full_like(x, 3.0) if False else x * 1)
del OPS['fill']
for _m in ('sum', 'mean', 'std', 'var', 'min', 'max', 'prod'):
    def _f(rnd, m=_m):
        s = rnd.choice([V, M, SQ, W])
        ax = _axis(rnd, s)
        return (s,), lambda x: getattr(x, m)(axis=ax)
    OPS['method.' + _m] = _f
simple('method.cumsum', [V, M], lambda x: x.cumsum(), lambda x: x.cumsum(axis=0))
simple('method.round', [V, M], lambda x: x.round(), lambda x: x.round(1))
simple('method.take', [V, W], lambda x: x.take([0, 2]))
simple('method.reshape', [M, (6,)], lambda x: x.reshape(3, 2), lambda x: x.reshape(-1))
simple('method.transpose', [M], lambda x: x.T, lambda x: x.transpose())
simple('method.flatten', [M, V], lambda x: x.flatten())
simple('method.ravel', [M, V], lambda x: x.ravel())
simple('method.repeat', [V], lambda x: x.repeat(2))
simple('method.diagonal', [SQ, M], lambda x: x.diagonal())
# the method trace is implemented in C: it drops the unit
simple('method.squeeze', [(1, 3), (2, 1)], lambda x: x.squeeze())
simple('method.swapaxes', [M], lambda x: x.swapaxes(0, 1))
simple('method.compress', [V], lambda x: x.compress([True, False, True]))
simple('method.copy', [V, M, S], lambda x: x.copy())
simple('method.astype', [V, M], lambda x: x.astype(np.float32), lambda x: x.astype(float))
simple('method.real', [V, M], lambda x: x.real)
simple('index', [V, W, M], lambda x: x[1:], lambda x: x[::-1], lambda x: x[[0, 1]],
       lambda x: x[..., 1:], lambda x: x[np.arange(len(x)) < 2], lambda x: x[None])


def _msort(x):
    y = x.copy()
    y.sort()
    return y


simple('method.sort', [V, M], _msort)


def two(n, pairs, *fs):
    OPS[n] = lambda rnd: (rnd.choice(pairs), rnd.choice(fs))


two('append', [(V, V), (V, S), (V, W), (M, V)], lambda x, y: np.append(x, y))
two('where', [(V, V), (V, S), (S, V)], lambda x, y: np.where([True, False, True], x, y))
two('intersect1d', [(V, V), (V, W)], np.intersect1d)
two('union1d', [(V, V), (V, W)], np.union1d)
two('setdiff1d', [(V, V), (W, V)], np.setdiff1d)
two('setxor1d', [(V, V), (V, W)], np.setxor1d)
two('insert', [(V, S), (W, S), (V, (2,))], lambda x, y: np.insert(x, 1, y), lambda x, y: np.insert(x, [2], y))
two('dot', [(M, V), (SQ, SQ), (V, V), (V, S), (SQ, M)], np.dot)
two('inner', [(V, V), (M, M), (M, V)], np.inner)
two('outer', [(V, V), (V, W), (M, V)], np.outer)
two('vdot', [(V, V), (M, M)], np.vdot)
two('cross', [(V, V), (M, V)], np.cross)
two('kron', [(V, V), (SQ, V)], np.kron)
two('convolve', [(V, W), (W, V)], np.convolve, lambda x, y: np.convolve(x, y, 'valid'))
two('correlate', [(W, V)], np.correlate, lambda x, y: np.correlate(x, y, 'full'))
two('tensordot', [(SQ, M), (SQ, SQ)], lambda x, y: np.tensordot(x, y, 1))
OPS['einsum'] = lambda rnd: rnd.choice([
    ((M, V), lambda x, y: np.einsum('ij,j->i', x, y)), ((V, V), lambda x, y: np.einsum('i,i', x, y)),
    ((SQ,), lambda x: np.einsum('ii->i', x)),
    ((V, M, (2,)), lambda x, y, z: np.einsum('j,ij,i->', x, y, z))])
OPS['broadcast_arrays'] = lambda rnd: rnd.choice([
    ((V, S), np.broadcast_arrays), ((M, V), np.broadcast_arrays),
    ((M, V, S), np.broadcast_arrays), ((V,), np.broadcast_arrays)])
OPS['atleast_1d_n'] = lambda rnd: (rnd.choice([(V, S), (S, S), (S, V, V)]),
                                   rnd.choice([np.atleast_1d, np.atleast_2d, np.atleast_3d]))


@op('concatenate', 'concat', 'stack', 'vstack', 'hstack', 'dstack', 'column_stack')
def _(n, rnd):
    k = rnd.choice([2, 2, 3])
    s = rnd.choice([V, M])
    f = getattr(np, n)
    cls = rnd.choice([list, tuple])
    if n in ('concatenate', 'concat', 'stack') and rnd.random() < 0.5:
        ax = rnd.randrange(len(s))
        return k * (s,), lambda *a: f(cls(a), axis=ax)
    return k * (s,), lambda *a: f(cls(a))


@op('choose')
def _(n, rnd):
    k = rnd.choice([2, 3])
    c = [rnd.randrange(k) for _ in range(3)]
    return k * (V,), lambda *a: np.choose(c, list(a))


@op('select')
def _(n, rnd):
    k = rnd.choice([2, 3])
    c = [np.array([rnd.random() < 0.5 for _ in range(3)]) for _ in range(k)]
    return k * (V,), lambda *a: np.select(c, list(a))


if not hasattr(np, 'concat'):
    del OPS['concat']
two('cov', [(V, V)], np.cov)
# in place
INPLACE = {
    'add': lambda x, y: x.__iadd__(y), 'subtract': lambda x, y: x.__isub__(y),
    'multiply': lambda x, y: x.__imul__(y), 'divide': lambda x, y: x.__itruediv__(y),
    'remainder': lambda x, y: x.__imod__(y), 'floor_divide': lambda x, y: x.__ifloordiv__(y),
}


def _place(f):
    def g(x, *a):
        f(x, *a)
        return x
    return g


MUTATE = {      # they change their first operand
    'fill_diagonal': ([(SQ, S), ((3, 3), V)], _place(np.fill_diagonal)),
    'add.at': ([(V, S), (W, (2,))], _place(lambda x, y: np.add.at(x, [0, 1], y))),
    'maximum.at': ([(V, S), (W, (2,))], _place(lambda x, y: np.maximum.at(x, [0, 2], y))),
}
OUT_UFUNCS = {'absolute', 'negative', 'square', 'sqrt', 'reciprocal', 'add', 'subtract', 'maximum',
              'minimum', 'hypot', 'multiply', 'divide', 'equal', 'less', 'remainder', 'fmod',
              'rint', 'floor', 'copysign'}
OUT_FUNCS = {
    'sum': lambda x, o: np.sum(x, axis=0, out=o), 'mean': lambda x, o: np.mean(x, axis=0, out=o),
    'max': lambda x, o: np.max(x, axis=0, out=o), 'std': lambda x, o: np.std(x, axis=0, out=o),
    'var': lambda x, o: np.var(x, axis=0, out=o), 'cumsum': lambda x, o: np.cumsum(x, axis=0, out=o),
    'method.sum': lambda x, o: x.sum(axis=0, out=o), 'method.mean': lambda x, o: x.mean(axis=0, out=o),
    'method.max': lambda x, o: x.max(axis=0, out=o),
    'add.reduce': lambda x, o: np.add.reduce(x, axis=0, out=o), 'prod': lambda x, o: np.prod(x, axis=0, out=o),
    'dot': lambda x, y, o: np.dot(x, y, out=o), 'take': lambda x, o: np.take(x, [2, 0, 1], out=o),
    'around': lambda x, o: np.around(x, out=o), 'method.clip': lambda x, y, z, o: x.clip(y, z, out=o),
    'concatenate': lambda x, y, o: np.concatenate([x, y], out=o),
    'stack': lambda x, y, o: np.stack([x, y], out=o),
}
OUT_SHAPES = {'dot': [(M, V), (SQ, SQ)], 'take': [(V,), (W,)], 'around': [(V,), (M,)],
              'concatenate': [(V, V), (M, M)], 'stack': [(V, V), (M, M)],
              'method.clip': [(V, S, S), (M, S, S)]}


# ---- observation ----------------------------------------------------------------------
def values(x):
    x = np.asarray(plain(x), dtype=float)
    sg, L, F = [], [], []
    for v in x.ravel().tolist():
        if v != v:
            sg.append(NONINT), L.append(NONINT), F.append(BIG)
        elif math.isinf(v):
            sg.append(2 if v > 0 else -2), L.append(NONINT), F.append(BIG)
        else:
            sg.append((v > 0) - (v < 0))
            L.append(round(1e5 * math.log(abs(v))) if v else NONINT)
            F.append(round(v * 997) if 0.01 < abs(v) < 1e6 or abs(v) < 1e-9 else BIG)
    return {'shape': list(x.shape), 'sg': sg, 'L': L, 'F': F}


NOTVALUES = {'shape': [-1], 'sg': [], 'L': [], 'F': []}


def observe(q):
    st, d = call(values, q)
    if st != 'ok':
        d = dict(NOTVALUES)
    st, toks = call(lambda: tokens(q.unit) if isinstance(q, Quantity) else [])
    d['toks'] = toks if st == 'ok' else [{'op': '*', 'n': '<unreadable>', 'e': 0}]
    return d


def aslist(r):
    return list(r) if isinstance(r, (list, tuple)) else [r]


# ---- conversions ----------------------------------------------------------------------
FACTORS = {'m': Fraction(1), 'km': Fraction(1000), 's': Fraction(1), 'ms': Fraction(1, 1000),
           'J': Fraction(1), 'N': Fraction(1), 'ua': Fraction(4), 'K': Fraction(1), 'W': Fraction(1),
           'Pa': Fraction(1), 'bar': Fraction(100000), 'us': Fraction(1, 1000000)}
EXPAND = {'J': {'kg': 1, 'm': 2, 's': -2}, 'N': {'kg': 1, 'm': 1, 's': -2}, 'W': {'kg': 1, 'm': 2, 's': -3},
          'km': {'m': 1}, 'ms': {'s': 1}, 'us': {'s': 1}, 'ua': {'m': 1},
          'Pa': {'kg': 1, 'm': -1, 's': -2}, 'bar': {'kg': 1, 'm': -1, 's': -2}}


def si(toks):
    f, base = 1.0, {}
    for n, e in exponents(toks).items():
        f *= float(FACTORS[n]) ** (e / 12)
        for b, k in EXPAND.get(n, {n: 1}).items():
            base[b] = base.get(b, 0) + e * k
    return f, {k: v for k, v in base.items() if v}


UNITS = [
    [[('m', 12)], [('km', 12)], [('ua', 12)]],
    [[('s', 12)], [('ms', 12)]],
    [[('km', 12), ('s', -12)], [('m', 12), ('ms', -12)], [('m', 12), ('s', -12)]],
    [[('J', 12)], [('N', 12), ('m', 12)], [('W', 12), ('s', 12)]],
    [[('m', 24)], [('km', 24)]],
    [[('Pa', 12)], [('bar', 12)]],
    [[('K', 12)]],
]
NAMES = set(FACTORS) | {'kg'}


def mktoks(u, rnd):
    out = [{'op': '/' if e < 0 else '*', 'n': n, 'e': abs(e)} for n, e in u]
    return out


class Recorder:
    def __init__(self, rnd):
        self.rnd = rnd
        self.regs = []
        self.events = []
        self.family = rnd.choice(UNITS)
        self.local = rnd.random() < 0.3
        self.powers = rnd.choice([0, 0, 0.05, 0.3])

    def unit(self):
        rnd = self.rnd
        r = rnd.random()
        if r < 0.15:
            return []
        fam = self.family if r < 0.85 else rnd.choice(UNITS)
        u = rnd.choice(fam)
        if any(n == 'ua' for n, _ in u) and not self.local:
            return mktoks(fam[0], rnd)
        if rnd.random() < self.powers:
            u = [(n, 2 * e) for n, e in u]
        toks = mktoks(u, rnd)
        rnd.shuffle(toks)
        if toks and toks[0]['op'] == '/':
            toks = toks[1:] + toks[:1]
        return toks

    def values(self, shape, positive=False):
        rnd = self.rnd
        n = int(np.prod(shape, dtype=int))
        v = [rnd.choice([1, 2, 3, 4, 0.5, 2.5, 1.5, 1000, 2000, 125, 500, 0.25, 250, 1, 2, 4, 3000, 6.5])
             * (1 if positive else rnd.choice([1, 1, -1])) for _ in range(n)]
        return np.array(v, float).reshape(shape)

    def emit(self, e, status, msg=''):
        e['status'] = status
        e['_msg'] = str(msg)[:300] if status != 'ok' else ''
        e['post'] = [observe(q) for q in self.regs]
        self.events.append(e)
        return status == 'ok'

    def slot(self, keep=()):
        if len(self.regs) < 5:
            return len(self.regs)
        return self.rnd.choice([i for i in range(5) if i not in keep])

    def put(self, dst, q):
        if dst == len(self.regs):
            self.regs.append(q)
        else:
            self.regs[dst] = q

    def create(self, shape, keep=(), positive=False):
        rnd = self.rnd
        toks = self.unit()
        v = self.values(shape, positive)
        dst = self.slot(keep)
        status, q = call(Quantity, v, string(toks), derived_units=du() if self.local else None)
        if status == 'ok':
            self.put(dst, q)
        self.emit({'op': 'create', 'dst': dst + 1, 'toks': toks, **values(v)}, status, q)
        return dst if status == 'ok' else None

    def alias(self):
        if not self.regs:
            return True
        a, dst = self.rnd.randrange(len(self.regs)), self.slot()
        self.put(dst, self.regs[a])
        return self.emit({'op': 'alias', 'a': a + 1, 'dst': dst + 1}, 'ok')

    def operand(self, shape, keep, positive=False):
        """Index of a register."""
        c = [i for i, q in enumerate(self.regs) if q.shape == tuple(shape)
             and (not positive or np.all(plain(q) > 0))]
        if c and self.rnd.random() < 0.6:
            return self.rnd.choice(c)
        return self.create(shape, keep, positive)

    def apply(self, name=None):
        rnd = self.rnd
        name = name or rnd.choice(list(OPS) + list(MUTATE) + ['power', 'float_power', 'power'])
        k = 24
        mode = 'plain'
        if name in MUTATE:
            shapes, f = rnd.choice(MUTATE[name][0]), MUTATE[name][1]
            mode = 'mutate'
        elif name in ('power', 'float_power'):
            k = rnd.choice(list(POWERS))
            p = POWERS[k]
            shapes = (rnd.choice(SHAPES),)
            f = {'power': rnd.choice([lambda x: np.power(x, p), lambda x: x ** p]),
                 'float_power': lambda x: np.float_power(x, p)}[name]
            if name == 'power' and isinstance(p, int) and p >= 0 and rnd.random() < 0.2:
                mode = 'ipow'
                def f(x):
                    x **= p
                    return x
        elif name in OUT_FUNCS and rnd.random() < 0.5:
            shapes = rnd.choice(OUT_SHAPES.get(name, [(M,), (SQ,), (C3,)]))
            f, mode = OUT_FUNCS[name], 'out'
        else:
            shapes, f = OPS[name](rnd)
            if name in INPLACE and np.broadcast_shapes(*shapes) == shapes[0] and rnd.random() < 0.4:
                f, mode = INPLACE[name], 'inplace'
                if shapes[0] == ():
                    mode = 'plain'
                    f = getattr(np, name)
            elif name in OUT_UFUNCS and rnd.random() < 0.3:
                u = getattr(np, name)
                f, mode = (lambda *a: u(*a[:-1], out=a[-1])), 'out'
        positive = name in ('sqrt', 'cbrt', 'reciprocal') or k in (6, -12, -24)
        ids = []
        for s in shapes:
            i = self.operand(s, ids, positive)
            if i is None:
                return False
            ids.append(i)
        # some operands without unit are plain arrays
        qs = [self.regs[i] for i in ids]
        toks = [tokens(q.unit) for q in qs]
        if any(n not in NAMES for t in toks for n in exponents(t)):
            return True
        if any(abs(e) > 72 or e % 3 for t in toks for e in exponents(t).values()):
            return True
        args, inputs = [], []
        anyq = False
        for j, (i, q) in enumerate(zip(ids, qs)):
            if q.unit == '' and rnd.random() < 0.7 and not (j == 0 and mode in ('mutate', 'ipow', 'inplace')):
                p = plain(q).copy()
                if p.ndim == 0 and rnd.random() < 0.5:
                    p = float(p)
                args.append({'reg': 0, 'toks': [], **values(p)})
                inputs.append(p)
            else:
                args.append({'reg': i + 1, 'toks': [], 'shape': [], 'sg': [], 'L': [], 'F': []})
                inputs.append(q)
                anyq = True
        if not anyq:
            return True
        if name.startswith('method') or name == 'index':
            if not isinstance(inputs[0], Quantity):
                return True
        if mode == 'mutate' and (not isinstance(inputs[0], Quantity) or not toks[0]):
            return True
        # the homogenised operands
        first = next((t for t in toks if exponents(t)), [])
        conv, crs = [], []
        discontinuous = True
        hom = name in HOM
        f0, b0 = si(first)
        for t, x in zip(toks, inputs):
            v = np.array(plain(x), float)
            if hom and exponents(t) and exponents(t) != exponents(first):
                f1, b1 = si(t)
                if b1 == b0:
                    w = v * (f1 / f0)
                    alt = v / (f0 / f1)
                    if not np.array_equal(w, alt):
                        return True      # ambiguous rounding
                    if not all(float(Fraction(z).limit_denominator(10**6)) == z for z in w.ravel().tolist()):
                        return True
                    v = w
            conv.append(v)
            crs.append({'sg': values(v)['sg'], 'L': values(v)['L']})
        if name == 'floor_divide' and exponents(toks[0]) and exponents(toks[1]) \
                and exponents(toks[0]) != exponents(toks[1]) and si(toks[0])[1] == si(toks[1])[1]:
            return True
        hasq = [x for x in inputs if isinstance(x, Quantity)]
        out = 0
        # reference
        e = {'op': 'apply', 'name': name, 'args': args, 'conv': crs, 'k': k, 'dst': 0, 'out': 0,
             'loc': [LOCAL] if self.local else [], 'ref': [], 'res': [], 'wantsloc': False,
             'hasloc': True, '_mode': mode, '_regs': ids, 'sameout': True, 'pick': 1}
        with np.errstate(all='ignore'):
            if mode == 'out':
                ref = aslist(call_ref(f, conv, out_like=True))
            else:
                ref = aslist(call_ref(f, [c.copy() for c in conv]))
            if ref and isinstance(ref[0], Exception):
                return True
            target = None
            if mode == 'out':
                s = np.shape(ref[0])
                if ref[0].dtype == bool:
                    return True
                c = [i for i, q in enumerate(self.regs) if q.shape == s and s != ()]
                if name in ('hypot',) or not c or any(
                        self.regs[i] is q for i in c for q in inputs) and name not in OUT_UFUNCS:
                    c = [i for i in c if not any(self.regs[i] is q for q in inputs)]
                if any(i for i in c) and rnd.random() < 0.8 and c:
                    out = rnd.choice(c) + 1
                    target = self.regs[out - 1]
                    if any(target is x for x in inputs) and sum(x is target for x in inputs) and \
                            name not in OUT_UFUNCS:
                        return True
                else:
                    target = np.empty(s)
                # function buffers: an input without unit leaves the unit of the buffer
                if out and name in OUT_FUNCS and not first and (self.regs[out - 1].unit):
                    return True
                inputs = [*inputs, target]
            elif mode in ('inplace', 'mutate', 'ipow'):
                out = ids[0] + 1
                if not isinstance(inputs[0], Quantity):
                    return True
            status, res = call(f, *inputs)
        e['out'] = out
        e['ref'] = [values(x) for x in ref]
        if status == 'ok':
            e['sameout'] = not out or res is self.regs[out - 1]
            if mode == 'out' and not out:
                r2 = aslist(res)
                e['sameout'] = bool(np.array_equal(plain(r2[0]), target, equal_nan=True))
            rs = aslist(res)
            e['res'] = [observe(x) for x in rs]
            q = [j for j, x in enumerate(rs) if isinstance(x, Quantity)]
            if self.local and all(set(x.derived_units) == {'ua'} for x in hasq):
                w = [x for x in rs if isinstance(x, Quantity) and x.unit]
                e['wantsloc'] = bool(w)
                e['hasloc'] = all('ua' in x.derived_units for x in w)
            if not out and q and rnd.random() < 0.6:
                j = rnd.choice(q)
                x = rs[j]
                if self.storable(x):
                    dst = self.slot()
                    self.put(dst, x.copy())
                    e['dst'] = dst + 1
                    e['pick'] = j + 1
        else:
            if out and not status.startswith('exc:UnitError'):
                pass
        if not self.emit(e, status, res) and status != 'exc:UnitError':
            return False
        return not out or self.storable(self.regs[out - 1])

    def storable(self, x):
        v = plain(x)
        return (isinstance(x, Quantity) and v.size <= 8 and 0 not in v.shape and v.ndim <= 2
                and v.dtype == float and bool(np.all(np.isfinite(v)))
                and bool(np.all((np.abs(v) < 1e5) & (np.abs(v) > 1e-2)))
                and all(abs(e) <= 48 and e % 6 == 0 for e in exponents(tokens(x.unit)).values()))


def call_ref(f, conv, out_like=False):
    try:
        if out_like:
            try:
                return f(*conv, None)
            except TypeError:
                return f(*conv, out=None)
        return f(*conv)
    except Exception as exc:
        return [exc]


COMMON = {'add', 'subtract', 'maximum', 'minimum', 'fmax', 'fmin', 'fmod', 'remainder', 'hypot',
          'clip', 'add.outer', 'subtract.outer', 'maximum.outer', 'add.at', 'maximum.at', 'append',
          'concatenate', 'concat', 'stack', 'vstack', 'hstack', 'dstack', 'column_stack', 'where',
          'choose', 'select', 'insert', 'intersect1d', 'union1d', 'setdiff1d', 'setxor1d',
          'fill_diagonal', 'method.clip'}
COMPARE = {'equal', 'not_equal', 'less', 'less_equal', 'greater', 'greater_equal', 'arctan2'}
HOM = COMMON | COMPARE | {'divmod'}
