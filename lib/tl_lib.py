"""Operators acting on arrays of samples (TimeLines.tla)."""
import math

import numpy as np
from enc import call, near
from pyoperators import (AdditionOperator, BlockColumnOperator, BlockDiagonalOperator, BlockRowOperator,
                         CompositionOperator, HomothetyOperator, Operator)
from pyoperators.flags import inplace, linear, square
from pysimulators import (ConvolutionTruncatedExponentialOperator, Map, PowerLawOperator, Quantity, RollOperator, Tod)
from pysimulators.operators import block_diagonal


@linear
@square
@inplace
class Scale(Operator):
    def __init__(self, value, key=0, gain=1, **keywords):
        self.value, self.key, self.gain = value, key, gain
        Operator.__init__(self, **keywords)

    def direct(self, input, output):
        np.multiply(input, self.value * np.sum(self.gain), output)

    def transpose(self, input, output):
        self.direct(input, output)


@square
@inplace
class Affine(Operator):
    def __init__(self, value, key=0, gain=1, **keywords):
        self.value, self.key, self.gain = value, key, gain
        Operator.__init__(self, **keywords)

    def direct(self, input, output):
        np.multiply(input, self.value * np.sum(self.gain), output)
        np.add(output, self.key, output)


_CLASSES = {}


def partitioned(base, how, axis):
    """Class partitioned along an axis."""
    k = base, how, axis
    if k not in _CLASSES:
        cls = type(f'{base.__name__}_{how}_{axis % 10}', (base,), dict(base.__dict__))
        # flags are set on the class
        cls.__init__ = base.__init__
        _CLASSES[k] = block_diagonal('value', 'key', **{how: axis})(cls)
    return _CLASSES[k]


def tau(k):
    return 0.0 if k == 0 else 1 / (k * math.log(2))


def lin(op):
    if op['k'] == 'affine':
        return op['c'] == 0
    return all(lin(o) for o in op.get('ops', []))


def has(op, k):
    return op['k'] == k or any(has(o, k) for o in op.get('ops', []))


def bits(op, shape, t=False):
    """Bits to be added for the divisions to be exact."""
    k = op['k']
    if k == 'conv':
        return max(op['ks']) * max(shape[-1] - 1, 1)
    if k == 'power':
        return max(0, -min(op['es']))
    if k == 'chain':
        return sum(bits(o, shape) for o in op['ops'])
    if k in ('stack', 'fan', 'join', 'cut', 'sum'):
        # at worst, the last axis is the longest one
        return max(bits(o, [max(shape)]) for o in op['ops'])
    return 0


def gain(op):
    """Bound of the amplification."""
    k = op['k']
    if k == 'power':
        return abs(op['s']) * 2.0 ** max(0, max(op['es']))
    if k == 'affine':
        return max(1, abs(op['v']) + abs(op['c']))
    if k == 'chain':
        return float(np.prod([gain(o) for o in op['ops']]))
    if k in ('sum', 'join', 'fan'):
        return sum(gain(o) for o in op['ops'])
    if k in ('cut', 'stack'):
        return max(gain(o) for o in op['ops'])
    return 4 if k == 'conv' else 1


class Gen:
    """Random operators over arrays of a given shape."""
    def __init__(self, rnd):
        self.rnd = rnd

    def leaf(self, shape, linear, block=True):
        rnd = self.rnd
        kinds = ['conv'] * 3 + ['roll'] * 3 + ['power'] * 2 + ['affine'] + ['part'] * 2 * block
        k = rnd.choice(kinds)
        nd = len(shape)
        if k == 'conv' and nd:
            rows = int(np.prod(shape[:-1], dtype=int))
            if nd > 1 and rnd.random() < 0.5:
                ks = [rnd.randint(0, 2) for _ in range(rows)]
            else:
                ks = [rnd.choice([0, 1, 1, 2])]
            return {'k': 'conv', 'ks': ks, 't': False}
        if k == 'roll' and nd:
            m = rnd.randint(1, nd)
            axes = [rnd.randrange(-nd, nd) for _ in range(m)]
            if rnd.random() < 0.5:
                axes = list(range(-m, 0))
            return {'k': 'roll', 'ns': [rnd.randint(-5, 5) for _ in axes], 'axes': axes, 't': False}
        if k == 'power':
            es = [rnd.randint(-1, 2)]
            if nd and rnd.random() < 0.6:
                es = [rnd.randint(-1, 2) for _ in range(int(np.prod(shape)))]
            return {'k': 'power', 'es': es, 's': rnd.choice([1, 1, 2, 3, -1])}
        if k == 'part' and nd:
            return self.part(shape, linear)
        return {'k': 'affine', 'v': rnd.randint(-2, 3), 'c': 0 if linear else rnd.randint(-2, 2)}

    def part(self, shape, linear):
        """The class decorator: affine operators on the chunks or slices of an axis."""
        rnd = self.rnd
        axis = rnd.randrange(-len(shape), len(shape))
        n = shape[axis]
        gainv = rnd.choice([1, 2])
        if rnd.random() < 0.5 and n > 1:
            sizes = split(rnd, n)
            op = {'k': 'cut', 'axis': axis, 'sizes': sizes}
            m = len(sizes)
        else:
            op = {'k': 'stack', 'axis': axis}
            m = n
        vs, cs = [rnd.randint(-2, 3) for _ in range(m)], [0 if linear else rnd.randint(-2, 2) for _ in range(m)]
        if rnd.random() < 0.3:
            vs = vs[:1] * m
        if rnd.random() < 0.3:
            cs = cs[:1] * m
        op['ops'] = [{'k': 'affine', 'v': v * gainv, 'c': c} for v, c in zip(vs, cs)]
        op['_part'] = vs, cs, gainv
        return op

    def tree(self, shape, depth, linear, top=True, block=True):
        # PyOperators mishandles the in-place compositions of sums and of blocks of blocks
        rnd = self.rnd
        if depth == 0 or rnd.random() < 0.3:
            return self.leaf(shape, linear, block)
        k = rnd.choice(['chain'] * 2 + ['cut', 'stack'] * block + ['sum'] * top)
        nd = len(shape)
        if k in ('chain', 'sum') or nd == 0:
            return {'k': 'chain' if nd == 0 else k,
                    'ops': [self.tree(shape, depth - 1, linear, False, block) for _ in range(rnd.choice([2, 2, 3]))]}
        axis = rnd.randrange(-nd, nd)
        n = shape[axis]
        if k == 'cut' and n > 1:
            sizes = split(rnd, n)
            ops = []
            for m in sizes:
                sub = list(shape)
                sub[axis] = m
                ops.append(self.tree(tuple(sub), depth - 1, linear, False, False))
            return {'k': 'cut', 'axis': axis, 'sizes': sizes, 'ops': ops}
        sub = list(shape)
        del sub[axis]
        if n == 1 or not sub:       # a block diagonal operator of one block is its block
            return self.leaf(shape, linear)
        return {'k': 'stack', 'axis': axis, 'ops': [self.tree(tuple(sub), depth - 1, linear, False, False) for _ in range(n)]}


def split(rnd, n):
    sizes = []
    while n:
        s = rnd.randint(1, n)
        sizes.append(s)
        n -= s
    return sizes if len(sizes) > 1 else split(rnd, sum(sizes))


def build(op, shape, rnd, dtype=None, top=True):
    """The operator of a tree."""
    if op.get('t'):
        return build({**op, 't': False}, shape, rnd, dtype, top).T
    k = op['k']
    kw = {}
    # the simplification rules of PyOperators cannot combine blocks of implicit shape
    if not top or rnd.random() < 0.6:
        kw['shapein' if rnd.random() < 0.8 else 'shapeout'] = shape
    if dtype is not None and k in ('conv', 'power'):
        kw['dtype'] = dtype
    if k == 'conv':
        t = [tau(i) for i in op['ks']]
        if len(t) == 1 and rnd.random() < 0.6:
            t = t[0]
        elif rnd.random() < 0.5:
            t = np.array(t)
        if rnd.random() < 0.2:
            t = Quantity(t)
        elif rnd.random() < 0.1:
            t = Quantity(np.asarray(t) * 1000, 'ms s^-1')
        return ConvolutionTruncatedExponentialOperator(t, **kw)
    if k == 'roll':
        ns, axes = op['ns'], op['axes']
        nd = len(shape)
        if axes == list(range(-len(axes), 0)) and rnd.random() < 0.6:
            return RollOperator(ns[0] if len(ns) == 1 and rnd.random() < 0.5 else tuple(ns), **kw)
        if len(set(ns)) == 1 and rnd.random() < 0.5:
            return RollOperator(ns[0], axis=axes[0] if len(axes) == 1 else axes, **kw)
        return RollOperator(ns, axis=axes, **kw)
    if k == 'power':
        step = rnd.choice([1, 2, -1])      # x / x0 = 2^step
        es = np.array(op['es'], float) / step
        if len(op['es']) == 1:
            es = float(es[0])
        else:
            es = es.reshape(shape)
            kw = {k: v for k, v in kw.items() if k == 'dtype'}
        x0 = rnd.choice([1, 3.0, 10])
        s = op['s']
        f = 1 if op.get('_alone') else rnd.choice([1, 1, s])
        p = PowerLawOperator(es, x0 * 2.0**step, x0, *((scalar,) if (scalar := s / f) != 1 or rnd.random() < 0.5 else ()), **kw)
        if f == 1:
            return p
        return HomothetyOperator(f, **kw) * p if rnd.random() < 0.6 else p * HomothetyOperator(f, **kw)
    if k == 'affine':
        cls = Scale if op['c'] == 0 else Affine
        return cls(op['v'], op['c'], **kw)
    if '_part' in op:
        return build_part(op, shape, rnd, kw)
    if k == 'chain':
        # PyOperators cannot swap a homothety and the transpose of an operator
        alone = {'_alone': True} if any(o.get('t') for o in op['ops']) else {}
        ops = [build({**o, **alone}, shape, rnd, dtype, False) for o in op['ops']][::-1]
        if not all(o.flags.linear for o in ops):
            # the product of operators which are not linear is their element-wise product
            return CompositionOperator(ops)
        out = ops[0]
        for o in ops[1:]:
            out = out * o
        return out
    if k == 'sum':
        return AdditionOperator([build(o, shape, rnd, dtype, False) for o in op['ops']])
    if k == 'cut':
        ops = []
        for o, n in zip(op['ops'], op['sizes']):
            sub = list(shape)
            sub[op['axis']] = n
            ops.append(build(o, tuple(sub), rnd, dtype, False))
        return BlockDiagonalOperator(ops, axisin=op['axis'], partitionin=op['sizes'])
    sub = list(shape)
    if k in ('stack', 'join'):
        del sub[op['axis']]
    ops = [build(o, tuple(sub), rnd, dtype, False) for o in op['ops']]
    if k == 'stack':
        return BlockDiagonalOperator(ops, new_axisin=op['axis'])
    if k == 'fan':
        return BlockColumnOperator(ops, new_axisout=op['axis'])
    return BlockRowOperator(ops, new_axisin=op['axis'])


def build_part(op, shape, rnd, kw):
    vs, cs, g = op['_part']
    chunks = op['k'] == 'cut'
    base = Scale if all(c == 0 for c in cs) else Affine
    cls = partitioned(base, 'axisin' if chunks else 'new_axisin', op['axis'])
    m = len(vs)

    def seq(x):
        if len(set(x)) == 1 and rnd.random() < 0.7:
            return x[0]
        return rnd.choice([list, tuple, np.array])(x)

    v, c = seq(vs), seq(cs)
    if chunks:
        kw['partitionin'] = rnd.choice([list, tuple])(op['sizes'])
    else:
        if np.ndim(v) == 0 and np.ndim(c) == 0:
            if m == 1:
                kw.pop('partitionin', None)
            elif rnd.random() < 0.5:
                kw['partitionin'] = (1,) * m
            else:
                v = [v] * m
        elif rnd.random() < 0.3:
            kw['partitionin'] = (1,) * m
    g = rnd.choice([g, [g], (g - 1, 1)])
    u = rnd.random()
    if u < 0.3:
        return cls(v, c, g, **kw)
    if u < 0.6:
        return cls(v, gain=g, key=c, **kw)
    return cls(value=v, key=c, gain=g, **kw)


class Recorder:
    def __init__(self, rnd):
        self.rnd = rnd
        self.gen = Gen(rnd)
        self.events = []

    def start(self):
        rnd = self.rnd
        nd = rnd.choice([1, 1, 2, 2, 2, 3])
        shape = {1: (rnd.randint(1, 6),), 2: (rnd.randint(1, 3), rnd.randint(1, 4)),
                 3: (rnd.randint(1, 2), rnd.randint(1, 2), rnd.randint(1, 3))}[nd]
        data = [rnd.randint(-6, 9) for _ in range(int(np.prod(shape)))]
        self.x = np.array(data, float).reshape(shape)
        self.z = 0
        self.kind = rnd.choice(['ndarray'] * 4 + ['Tod', 'Map'])
        if self.kind != 'ndarray':
            cls = Tod if self.kind == 'Tod' else Map
            self.x = cls(self.x, unit='Jy')
        self.events.append({'op': 'start', 'shape': list(shape), 'data': data})

    def layout(self, x, tree):
        """The array, and whether it is contiguous."""
        u = self.rnd.random()
        # the temporaries of the composite operators of PyOperators assume contiguous arrays
        if self.kind != 'ndarray' or u < 0.6 or 'ops' in tree:
            return x.copy('C'), True
        if u < 0.7 and x.ndim == 2:
            y = np.asfortranarray(x)
            return y, y.flags.c_contiguous
        if u < 0.8:
            big = np.full(tuple(2 * n for n in x.shape), 55.0, x.dtype)
            y = big[tuple(slice(None, None, 2) for n in x.shape)]
            y[...] = x
            return y, False
        if u < 0.9 and x.ndim == 2:     # rows of a larger array
            big = np.full((x.shape[0], x.shape[1] + 2), 55.0, x.dtype)
            big[:, 1:-1] = x
            return big[:, 1:-1], x.shape[0] == 1
        return x[::-1].copy()[::-1], False

    def apply(self):
        rnd = self.rnd
        x = np.asarray(self.x)
        shape = x.shape
        linear = rnd.random() < 0.7
        u = rnd.random()
        if u < 0.12 and x.ndim < 3 and shape[-1] > 0:
            axis = rnd.randint(-x.ndim - 1, x.ndim)
            tree = {'k': 'fan', 'axis': axis, 'ops': [self.gen.tree(shape, 1, linear) for _ in range(rnd.randint(2, 3))]}
        elif u < 0.24 and x.ndim > 1:
            axis = rnd.randrange(-x.ndim, x.ndim)
            sub = list(shape)
            n = sub.pop(axis)
            if n == 1:
                return
            tree = {'k': 'join', 'axis': axis, 'ops': [self.gen.tree(tuple(sub), 1, linear) for _ in range(n)]}
        else:
            tree = self.gen.tree(shape, rnd.choice([0, 0, 1, 1, 2]), linear)
        t = lin(tree) and rnd.random() < 0.5
        z = bits(tree, shape)
        amp = max(1, np.max(np.abs(x))) * gain(tree) * 2.0 ** (self.z + z)
        if amp > 2.0**27:
            return
        # the transpose of a block column applies to a stack of arrays
        if t and tree['k'] in ('fan', 'join'):
            t = False
        way = rnd.choice(['T', 'H', 'TTT']) if t else rnd.choice(['', '', 'TT', 'C'] if lin(tree) else [''])
        single = not ('ops' in tree and has(tree, 'power')) and amp < 2.0**15 and self.kind == 'ndarray' and rnd.random() < 0.3
        dtype = np.float32 if single else None
        x, contiguous = self.layout(x.astype(dtype) if single else self.x, tree)
        integer = not single and 'ops' not in tree and self.kind == 'ndarray' and contiguous and np.all(x == np.round(x)) and rnd.random() < 0.15
        if integer:
            x = x.astype(int)
        before = np.array(x)
        e_ = [str(x.dtype), self.kind, x.flags.c_contiguous, way]

        def f():
            op = build(tree, shape, rnd, dtype)
            for c in way:
                op = getattr(op, c)
            return op

        st, op = call(f)
        e = {'op': 'apply', 'tree': tree, 't': t, 'z': z, 'may': False, 'name': tree['k'] + ('-T' if t else ''),
             'shape': [], 'obs': [], 'intact': True, 'buffer': True, 'kept': True}
        conv = has(tree, 'conv')
        # the temporaries handled by PyOperators are not always contiguous
        e['may'] = conv and (not contiguous or len(shape) > 2 or integer or 'ops' in tree)
        if st != 'ok':
            e['may'] = False
            e['name'] = 'build'
            return self.add(e, st, op)
        mode = rnd.choice(['', '', 'out', 'inplace'])
        if integer or tree['k'] in ('fan', 'join') or self.kind != 'ndarray' or single and has(tree, 'power'):
            mode = ''
        if mode == 'out':
            out, c = self.layout(np.full(shape, 77.0, x.dtype), tree)
            e['may'] = e['may'] or conv and not c
            st, y = call(op, x, out)
            e['buffer'] = st != 'ok' or y is out or bool(np.array_equal(np.asarray(y), out))
        elif mode == 'inplace':
            e['may'] = e['may'] or conv
            st, y = call(op, x, x)
            e['buffer'] = st != 'ok' or bool(np.array_equal(np.asarray(y), x))
        else:
            st, y = call(op, x)
        if st == 'ok':
            e['intact'] = mode == 'inplace' or bool(np.array_equal(before, x))
            y_ = np.asarray(y)
            e['shape'] = list(y_.shape)
            e['obs'] = [near(v, 2.0 ** (self.z + z), 1e-2) for v in y_.ravel().tolist()]
            if self.kind != 'ndarray' and tree['k'] not in ('fan', 'join'):
                e['kept'] = type(y) is type(self.x) and y.unit == 'Jy'
                self.x = y
            else:
                self.kind = 'ndarray'
                self.x = np.array(y_, float, order='C')
            self.z += z
        e['_how'] = e_ + [mode]
        self.add(e, st, y)

    def add(self, e, st, out=None):
        e['st'] = st
        if st != 'ok':
            e['_msg'] = str(out)
        self.events.append(e)

    def refused(self):
        rnd = self.rnd
        C, R, P = ConvolutionTruncatedExponentialOperator, RollOperator, PowerLawOperator
        cut = partitioned(Scale, 'axisin', 0)
        stack = partitioned(Scale, 'new_axisin', 0)
        n = rnd.randint(2, 4)
        m = rnd.choice([k for k in range(2, 6) if k != n])
        cases = {
            'scales': (lambda: C([1.0] * n)(np.ones((m, 3))), 'exc:ValueError'),
            'scales-1d': (lambda: C([1.0] * n).T(np.ones(m)), 'exc:ValueError'),
            'unit': (lambda: C(Quantity(rnd.randint(1, 3), rnd.choice(['s', 'm s', 'Hz']))), 'exc:ValueError'),
            'axes': (lambda: R(tuple(range(n)), axis=tuple(range(m))), 'exc:ValueError'),
            'axes-1': (lambda: R(tuple(range(n)), axis=0), 'exc:ValueError'),
            'x': (lambda: P(1, [1.0] * n, 2), 'exc:TypeError'),
            'x0': (lambda: P(1, 2, [1.0] * n), 'exc:TypeError'),
            'scalar': (lambda: P(1, 2, 1, [1.0] * n), 'exc:TypeError'),
            'power-shape': (lambda: P([1.0] * n, 2, 1)(np.ones(m)), 'exc:ValueError'),
            'lengths': (lambda: cut([1] * n, [1] * m, partitionin=(1,) * n), 'exc:ValueError'),
            'lengths-keyword': (lambda: stack([1] * n, key=[1] * m), 'exc:ValueError'),
            'partition': (lambda: cut(value=[1] * n, partitionin=(1,) * m), 'exc:ValueError'),
            'partition-stack': (lambda: stack([1] * n, partitionin=(1,) * m), 'exc:ValueError'),
            'stack-chunks': (lambda: stack([1] * n, partitionin=(2,) * n), 'exc:ValueError'),
            'no-axis': (lambda: block_diagonal('value'), 'exc:TypeError'),
            'keyword': (lambda: block_diagonal('value', axisin=0, axis=1), 'exc:TypeError'),
            'roll-shape': (lambda: R(1, shapein=n)(np.ones(m)), 'exc:ValueError'),
        }
        name = rnd.choice(sorted(cases))
        f, want = cases[name]
        st, out = call(f)
        self.add({'op': 'refused', 'name': 'refused-' + name, 'want': want}, st, out)


def history(rnd):
    rec = Recorder(rnd)
    rec.start()
    for _ in range(rnd.randint(1, 6)):
        if rnd.random() < 0.06:
            rec.refused()
        else:
            rec.apply()
        if rec.events[-1].get('st', 'ok') != 'ok':
            break
    return rec.events
