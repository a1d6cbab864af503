"""Maps and time-ordered data: observation and recording of histories."""
import copy
import pickle
import tempfile

import numpy as np
from astropy.io import fits as pyfits
from enc import NONINT, call, near, num
from pysimulators import FitsArray, Map, Quantity, Tod
from units_lib import exponents, tokens

NONE = 99999
CLS = {'Map': Map, 'Tod': Tod, 'FitsArray': FitsArray}
BAD = {'cls': '?', 'shape': [-1], 'v': [], 'cov': [], 'err': [], 'mask': [], 'hdr': -1, 'unit': -1,
       'org': '?', 'du': False}


def ints(x, scale=1):
    return [near(v, scale) if scale != 1 else num(v) for v in np.asarray(x).ravel().tolist()]


def comp(c, shape):
    """A companion: it should have the shape of the data."""
    if c is None:
        return []
    c = np.asarray(c)
    if c.shape != tuple(shape):
        return [[NONINT]]
    return [ints(c)]


def unit(x):
    e = exponents(tokens(x.unit))
    return e.get('Jy', 0) if set(e) <= {'Jy'} else NONINT


def observe(x):
    if not isinstance(x, FitsArray):
        return {**BAD, 'cls': type(x).__name__}
    st, d = call(_observe, x)
    return d if st == 'ok' else {**BAD, 'cls': type(x).__name__ + ' ' + str(d)[:60]}


def _observe(x):
    m = x.magnitude
    h = x.header
    return {'cls': type(x).__name__, 'shape': list(x.shape), 'v': ints(m),
            'cov': comp(x.coverage, x.shape) if isinstance(x, Map) else [],
            'err': comp(x.error, x.shape) if isinstance(x, Map) else [],
            'mask': comp(x.mask, x.shape) if isinstance(x, Tod) else [],
            'hdr': 0 if h is None else int(h.get('MARK', 0)), 'unit': unit(x),
            'org': str(x.origin) if isinstance(x, Map) else '',
            'du': 'ua' in x.derived_units}


def header(mark):
    h = pyfits.Header()
    h['SIMPLE'] = True
    h['BITPIX'] = -64
    h['NAXIS'] = 0
    h['MARK'] = mark
    return h


def build(r, how='new'):
    """The array described by a register of the specification."""
    v = np.array(r['v'], float).reshape(r['shape'])
    kw = {'unit': 'Jy^%g' % (r['unit'] / 12) if r['unit'] else '',
          'derived_units': {'ua': Quantity(4, 'm')} if r['du'] else None,
          'header': header(r['hdr']) if r['hdr'] else None}
    for k, n in (('cov', 'coverage'), ('err', 'error')):
        if r[k]:
            kw[n] = np.array(r[k][0], float).reshape(r['shape'])
    if r['mask']:
        kw['mask'] = np.array(r['mask'][0], bool).reshape(r['shape'])
    if r['cls'] == 'Map' and r['org']:
        kw['origin'] = r['org']
    cls = CLS[r['cls']]
    if how == 'zeros':
        x = cls.zeros(v.shape, **kw)
        x[...] = v
        return x
    if how == 'set':
        comps = {k: kw.pop(k) for k in ('coverage', 'error', 'mask', 'header') if k in kw}
        x = cls(v, **kw)
        for k, c in comps.items():
            setattr(x, k, c)
        return x
    if how == 'view':
        x = v.view(cls)
        x.unit = kw['unit']
        if r['du']:
            x.derived_units = kw['derived_units']
        for k in ('coverage', 'error', 'mask', 'origin'):
            if k in kw:
                setattr(x, k, kw[k])
        if kw['header'] is not None:
            x.header = kw['header']
        return x
    return cls(v, **kw, **({'copy': None} if how == 'nocopy' else {}))


# functions which move the elements of a Tod and of its mask
MOVES = {
    'transpose': np.transpose, 'flip': np.flip, 'flip0': lambda x: np.flip(x, 0),
    'roll': lambda x: np.roll(x, 1), 'roll-': lambda x: np.roll(x, -1, axis=-1),
    'repeat': lambda x: np.repeat(x, 2), 'take': lambda x: np.take(x, [0, 0]),
    'squeeze': np.squeeze, 'expand': lambda x: np.expand_dims(x, 0),
    'rot90': np.rot90, 'swap': lambda x: np.swapaxes(x, 0, -1),
    'moveaxis': lambda x: np.moveaxis(x, 0, -1), 'tile': lambda x: np.tile(x, 2),
    'atleast_2d': np.atleast_2d, 'diagonal': np.diagonal, 'fliplr': np.fliplr,
    'compress': lambda x: np.compress([True], x, axis=0),
}
PARTS = {'split': lambda x: np.split(x, [1]), 'array_split': lambda x: np.array_split(x, 2),
         'array_split-': lambda x: np.array_split(x, 3, axis=-1), 'split2': lambda x: np.split(x, 2, axis=-1)}
REDUCE = {'sum': np.sum, 'mean': np.mean, 'max': np.max, 'min': np.min}
ARITH = {'add': lambda x, c: x + c, 'sub': lambda x, c: x - c, 'mul': lambda x, c: x * c,
         'neg': lambda x, c: -x, 'abs': lambda x, c: abs(x), 'square': lambda x, c: np.square(x)}
IARITH = {'add': lambda x, c: x.__iadd__(c), 'sub': lambda x, c: x.__isub__(c),
          'mul': lambda x, c: x.__imul__(c)}
BINARY = {'add': lambda x, y: x + y, 'sub': lambda x, y: x - y, 'max': np.maximum, 'min': np.minimum}


class Recorder:
    def __init__(self, rnd):
        self.rnd = rnd
        self.regs = []
        self.events = []
        self.mark = 0

    def emit(self, e, status, msg=''):
        e['status'] = status
        e['_msg'] = str(msg)[:200] if status != 'ok' else ''
        e['post'] = [observe(x) for x in self.regs]
        self.events.append(e)
        return status == 'ok' and all(isinstance(x, FitsArray) for x in self.regs)

    def dst(self):
        return self.rnd.randrange(min(len(self.regs) + 1, 4))

    def put(self, dst, x):
        if dst == len(self.regs):
            self.regs.append(x)
        else:
            self.regs[dst] = x

    def bools(self, n, p=0.4):
        if self.rnd.random() < 0.15:
            return [1] * n
        return [int(self.rnd.random() < p) for _ in range(n)]

    def create(self, dst):
        rnd = self.rnd
        cls = rnd.choice(['Map', 'Map', 'Tod', 'Tod', 'Tod', 'FitsArray'])
        shape = rnd.choice([(4,), (3,), (2, 3), (2, 3), (3, 2), (2, 2), (1, 3), (2, 1)])
        n = int(np.prod(shape))
        self.mark += 1
        r = {'cls': cls, 'shape': list(shape), 'v': [rnd.randint(-20, 60) for _ in range(n)],
             'cov': [], 'err': [], 'mask': [], 'hdr': rnd.choice([0, self.mark, self.mark]),
             'unit': rnd.choice([0, 12, 12, 24]), 'org': '', 'du': rnd.random() < 0.3}
        if cls == 'Map':
            r['org'] = rnd.choice(['lower', 'upper'])
            if rnd.random() < 0.7:
                r['cov'] = [[rnd.randint(0, 99) for _ in range(n)]]
            if rnd.random() < 0.6:
                r['err'] = [[rnd.randint(0, 99) for _ in range(n)]]
        elif cls == 'Tod' and rnd.random() < 0.8:
            r['mask'] = [self.bools(n)]
        how = rnd.choice(['new', 'new', 'zeros', 'set', 'view', 'nocopy'])
        status, x = call(build, r, how)
        if status == 'ok':
            self.put(dst, x)
        return self.emit({'op': 'create', 'dst': dst + 1, **r, '_how': how}, status, x)

    def construct(self, a, dst):
        """cls(x), some attributes being replaced; then a change of the copy."""
        rnd = self.rnd
        x = self.regs[a]
        n = x.size
        cls = rnd.choice([type(x).__name__] * 3 + ['Map', 'Tod', 'FitsArray'])
        e = {'op': 'construct', 'a': a + 1, 'dst': dst + 1, 'cls': cls, 'cov': [], 'err': [], 'mask': [],
             'org': '', 'unit': 0, 'newunit': False}
        kw = {}
        if cls == 'Map':
            for k, name in (('cov', 'coverage'), ('err', 'error')):
                if rnd.random() < 0.2:
                    e[k] = [[rnd.randint(0, 99) for _ in range(n)]]
                    kw[name] = np.array(e[k][0], float).reshape(x.shape)
            if rnd.random() < 0.2:
                e['org'] = rnd.choice(['lower', 'upper'])
                kw['origin'] = rnd.choice([str, str.upper])(e['org'])
        if cls == 'Tod' and rnd.random() < 0.3:
            e['mask'] = [self.bools(n)]
            kw['mask'] = np.array(e['mask'][0], bool).reshape(x.shape)
            if rnd.random() < 0.4:
                kw['mask'] = kw['mask'].tolist()
        if rnd.random() < 0.15 and not (x.unit and cls != type(x).__name__):
            e['unit'], e['newunit'] = 24, True
            kw['unit'] = 'Jy^2'
        fresh = rnd.random() < 0.6
        if not fresh:
            if kw:        # the array itself would be changed
                return True
            kw['copy'] = rnd.choice([False, None]) if x.flags.c_contiguous else None
        status, y = call(CLS[cls], x, **kw)
        if status == 'ok':
            self.put(dst, y)
        if not self.emit(e, status, y):
            return False
        if fresh:
            return self.mutate(dst, kw)
        return True

    def mutate(self, a, given=()):
        rnd = self.rnd
        x = self.regs[a]
        if x.size == 0:
            return True
        what = ['values']
        if isinstance(x, Map):
            what += [k for k in ('coverage', 'error') if getattr(x, k) is not None and k not in given]
        if isinstance(x, Tod) and x.mask is not None:
            what += ['mask']
        if x._header is not None:
            what.append('header')
        what = rnd.choice(what)
        pos = rnd.randrange(x.size)
        value = rnd.randint(100, 199)

        def do():
            if what == 'header':
                x.header['MARK'] = value
                return
            c = {'values': lambda: x.magnitude, 'coverage': lambda: x.coverage,
                 'error': lambda: x.error, 'mask': lambda: x.mask}[what]()
            c[np.unravel_index(pos, x.shape)] = value

        if what == 'mask':
            value %= 2
        status, msg = call(do)
        return self.emit({'op': 'mutate', 'a': a + 1, 'what': what, 'pos': pos + 1, 'value': value},
                         status, msg)

    def same(self, a, dst):
        rnd = self.rnd
        f = rnd.choice([lambda x: x.copy(), copy.copy, copy.deepcopy, lambda x: x.view(),
                        lambda x: pickle.loads(pickle.dumps(x, rnd.choice([2, 4, 5]))),
                        lambda x: x[...], lambda x: x.astype(float), lambda x: +x])
        status, y = call(f, self.regs[a])
        if status == 'ok':
            self.put(dst, y)
        return self.emit({'op': 'same', 'a': a + 1, 'dst': dst + 1}, status, y)

    def select(self, a, dst):
        rnd = self.rnd
        x = self.regs[a]
        if x.ndim == 0:
            return True
        if rnd.random() < 0.25:
            m = np.array(self.bools(x.size, 0.6), bool).reshape(x.shape)
            if not m.any():
                return True
            key = m
            e = {'op': 'pick', 'a': a + 1, 'dst': dst + 1, 'idx': np.flatnonzero(m).tolist(),
                 'shape': [int(m.sum())]}
            if rnd.random() < 0.2:
                key = m.nonzero()
            status, y = call(lambda: x[key])
            if status == 'ok':
                self.put(dst, y)
            return self.emit(e, status, y)
        for _ in range(20):
            key, enc = [], []
            for n in x.shape:
                r = rnd.random()
                if r < 0.3:
                    k = rnd.randrange(-n, n)
                elif r < 0.85:
                    k = rnd.choice([slice(None), slice(1, None), slice(None, None, -1),
                                    slice(None, -1), slice(0, n), slice(None, None, 2)])
                else:
                    k = [rnd.randrange(n) for _ in range(rnd.randint(1, 3))]
                p = np.arange(n)[k]
                key.append(k if not isinstance(k, list) or rnd.random() < 0.5 else np.array(k))
                enc.append({'kind': 'int' if np.ndim(p) == 0 else 'seq',
                            'p': [int(_) for _ in np.ravel(p)]})
            adv = [not isinstance(k, (int, slice)) for k in key]
            if sum(adv) > 1 or any(adv) and any(isinstance(k, int) for k in key):
                continue
            if all(_['kind'] == 'int' for _ in enc) or any(not _['p'] for _ in enc):
                continue
            break
        else:
            return True
        if rnd.random() < 0.2:
            i = rnd.randrange(len(key) + 1)
            if not any(adv):
                key.insert(i, None)
                enc.insert(i, {'kind': 'new', 'p': [0]})
        if sum(k is not None for k in key) == 2 and len(key) == 2:
            if isinstance(key[1], slice) and key[1] == slice(None):
                key = rnd.choice([key, key[:1], [key[0], Ellipsis]])
            elif isinstance(key[0], slice) and key[0] == slice(None):
                key = rnd.choice([key, [Ellipsis, key[1]]])
        k = tuple(key)
        if len(key) == 1 and key[0] is not None:
            k = rnd.choice([k, key[0]])
        status, y = call(lambda: x[k])
        if status == 'ok':
            self.put(dst, y)
        return self.emit({'op': 'select', 'a': a + 1, 'dst': dst + 1, 'key': enc, '_key': str(k)}, status, y)

    def reshape(self, a, dst):
        rnd = self.rnd
        x = self.regs[a]
        n = x.size
        order = rnd.choice('CCF')
        dims = [rnd.choice([[n], [1, n], [n, 1], [-1], [n, -1], [2, n // 2], [3, n // 3], [-1, 2],
                            [2, -1], [1, n, 1], [3, 2], [2, 3], [6]])][0]
        r = rnd.random()
        known = int(np.prod([d for d in dims if d != -1]))
        if -1 in dims and (known == 0 or n % known):
            return True
        if r < 0.3:
            dims = [-1]
            f = rnd.choice([lambda: x.ravel(order), lambda: x.ravel(order=order), lambda: np.ravel(x, order=order),
                            lambda: np.ravel(x, order)])
        else:
            f = rnd.choice([lambda: x.reshape(dims, order=order), lambda: x.reshape(*dims, order=order),
                            lambda: np.reshape(x, dims, order=order), lambda: np.reshape(x, tuple(dims), order)])
        status, y = call(f)
        if status == 'ok':
            self.put(dst, y)
        self.emit({'op': 'reshape', 'a': a + 1, 'dst': dst + 1, 'dims': dims, 'order': order}, status, y)
        return status == 'ok' or status == 'exc:ValueError'

    def small(self, x):
        return x.size == 0 or np.max(np.abs(x.magnitude)) < 2000

    def arith(self, a, dst):
        rnd = self.rnd
        x = self.regs[a]
        if not self.small(x):
            return True
        f = rnd.choice(list(ARITH))
        c = rnd.choice([1, 2, 3])
        if f in ('add', 'sub') and x.unit and rnd.random() < 0.3:
            c = Quantity(c, x.unit)
        if f == 'square' and abs(unit(x)) > 12:
            return True
        status, y = call(ARITH[f], x, c)
        if status == 'ok':
            self.put(dst, y)
        return self.emit({'op': 'arith', 'a': a + 1, 'dst': dst + 1, 'f': f, 'c': int(c)}, status, y)

    def binary(self, a, dst):
        rnd = self.rnd
        x = self.regs[a]
        c = [i for i, y in enumerate(self.regs) if y.shape == x.shape and y.unit == x.unit
             and type(y) is type(x)]
        b = rnd.choice(c)
        f = rnd.choice(list(BINARY))
        if not self.small(x) or not self.small(self.regs[b]):
            return True
        y = self.regs[b]
        # which operand gives its attributes is only stated when they agree
        if isinstance(x, Tod) and rnd.random() < 0.9 and x is not y:
            pass
        status, y = call(BINARY[f], x, self.regs[b])
        if status == 'ok':
            self.put(dst, y)
        return self.emit({'op': 'binary', 'a': a + 1, 'b': b + 1, 'dst': dst + 1, 'f': f}, status, y)

    def move(self, a, dst):
        """Rearrangements of a Tod."""
        rnd = self.rnd
        x = self.regs[a]
        if not isinstance(x, Tod):
            return True
        f = rnd.choice(list(MOVES.values()))
        status, idx = call(f, np.arange(x.size).reshape(x.shape))
        if status != 'ok' or idx.size == 0 or idx.ndim == 0 or idx.size > 8:
            return True
        status, y = call(f, x)
        if status == 'ok':
            self.put(dst, y)
        return self.emit({'op': 'pick', 'a': a + 1, 'dst': dst + 1, 'idx': idx.ravel().tolist(),
                          'shape': list(idx.shape)}, status, y)

    def parts(self, a, dst):
        rnd = self.rnd
        x = self.regs[a]
        if not isinstance(x, Tod):
            return True
        f = rnd.choice(list(PARTS.values()))
        status, idx = call(f, np.arange(x.size).reshape(x.shape))
        if status != 'ok' or any(i.size == 0 for i in idx):
            return True
        status, ys = call(f, x)
        res = [observe(y) for y in ys] if status == 'ok' else []
        return self.emit({'op': 'parts', 'a': a + 1, 'res': res, 'parts': [
            {'idx': i.ravel().tolist(), 'shape': list(i.shape)} for i in idx]}, status, ys)

    def setmask(self, a, dst):
        rnd = self.rnd
        c = [i for i, x in enumerate(self.regs) if isinstance(x, Tod)]
        if not c:
            return True
        a = rnd.choice(c)
        # the mask may be shared with other arrays: work on a copy
        status, y = call(Tod, self.regs[a])
        if status == 'ok':
            self.put(dst, y)
        if not self.emit({'op': 'construct', 'a': a + 1, 'dst': dst + 1, 'cls': 'Tod', 'cov': [], 'err': [],
                          'mask': [], 'org': '', 'unit': 0, 'newunit': False}, status, y):
            return False
        x = y
        kind = rnd.choice(['none', 'nomask', 'scalar', 'scalar', 'array', 'array', 'int8', 'list', 'int', 'bad'])
        e = {'op': 'setmask', 'a': dst + 1, 'kind': 'array', 'value': 0, 'm': []}
        m = np.array(self.bools(x.size)).reshape(x.shape)
        if kind in ('none', 'nomask'):
            e['kind'] = 'none'
            v = None if kind == 'none' else np.ma.nomask
        elif kind == 'scalar':
            e['kind'] = 'scalar'
            e['value'] = rnd.randrange(2)
            v = rnd.choice([bool, np.bool_, int, np.array])(e['value'])
            if v is np.ma.nomask:
                v = False
        elif kind == 'bad':
            if x.ndim == 0:
                return True
            e['kind'] = 'bad'
            v = np.zeros((*x.shape, 2), bool) if rnd.random() < 0.5 else np.ones(x.size + 1, bool)
        else:
            e['m'] = m.ravel().tolist()
            v = {'array': m.astype(bool), 'int8': m.astype(np.int8), 'list': m.tolist(),
                 'int': m.astype(int)}[kind]
        status, msg = call(setattr, x, 'mask', v)
        self.emit(e, status, msg)
        return status in ('ok', 'exc:ValueError')

    def reduce(self, a, dst):
        rnd = self.rnd
        x = self.regs[a]
        if not isinstance(x, Tod) or x.size == 0 or x.size > 6 or not self.small(x):
            return True
        name = rnd.choice(list(REDUCE))
        ax = rnd.choice([None, *range(x.ndim)])
        kw = {'axis': ax if ax is None or rnd.random() < 0.7 else ax - x.ndim}
        keep = rnd.random() < 0.2
        if keep:
            kw['keepdims'] = True
        status, y = call(REDUCE[name], x, **kw)
        res = {}
        if status == 'ok':
            st, res = call(lambda: {'cls': type(y).__name__, 'shape': list(np.shape(y)),
                                    'v60': ints(y.magnitude, 60), 'unit': unit(y),
                                    'mask': comp(y.mask, y.shape)})
            if st != 'ok':
                res = {'cls': '?', 'shape': [-1], 'v60': [], 'unit': -1, 'mask': []}
        return self.emit({'op': 'reduce', 'a': a + 1, 'f': name, 'axis': NONE if ax is None else ax,
                          'keep': keep, 'res': res}, status, y)
