"""Instruments, imagers, beams and mask policies (Instruments.tla)."""
import numpy as np
from enc import NAN, call, num
from pyoperators import DiagonalOperator, HomothetyOperator
from pysimulators import Imager, Instrument, Layout, LayoutGrid, MaskPolicy, PackedTable
from pysimulators.beams import BeamGaussian, BeamUniformHalfSpace

NONE = 99999


def arg(x):
    return None if x == NONE else x


def selection(sel, rnd=None):
    """A selection of Instruments.tla as a Python object."""
    kind = sel[0]
    if kind == 'slice':
        return slice(arg(sel[1]), arg(sel[2]), None if sel[3] == 1 and rnd and rnd.random() < 0.5 else sel[3])
    if kind == 'int':
        return rnd.choice([int, np.int64, np.int32])(sel[1]) if rnd else sel[1]
    if kind == 'mask':
        return np.array(sel[1], bool) if not rnd or rnd.random() < 0.6 else [bool(_) for _ in sel[1]]
    if kind == 'list':
        return np.array(sel[1], int) if not rnd or rnd.random() < 0.6 or not sel[1] else list(sel[1])
    return rnd.choice([Ellipsis, slice(None), ()]) if rnd else Ellipsis


def seen(instrument):
    d = instrument.detector
    assert len(instrument) == len(d) == len(np.asarray(d.index))
    return {'name': getattr(instrument, 'name', ''), 'ids': [num(_) for _ in d.index], 'gain': [num(_) for _ in np.asarray(d.gain)]}


class Recorder:
    def __init__(self, rnd):
        self.rnd = rnd
        self.events = []
        self.world = []
        self.policy = None

    def add(self, e, st, out=None):
        e['st'] = st
        if st != 'ok':
            e['_msg'] = str(out)
        if e['op'] in ('create', 'select', 'split', 'iterate', 'assign', 'rename'):
            st, w = call(lambda: [seen(_) for _ in self.world])
            e['world'] = w if st == 'ok' else []
        self.events.append(e)

    def layout(self):
        rnd = self.rnd
        shape = rnd.choice([(rnd.randint(1, 8),), (rnd.randint(1, 3), rnd.randint(1, 4))])
        n = int(np.prod(shape))
        kw = {'gain': np.arange(n).reshape(shape)}
        ids = list(range(n))
        u = rnd.random()
        if u < 0.4:
            mask = np.array([rnd.random() < 0.7 for _ in range(n)])
            kw['selection'] = mask.reshape(shape)
            ids = np.flatnonzero(mask).tolist()
        cls = PackedTable
        if len(shape) == 2 and rnd.random() < 0.5:
            cls = rnd.choice([Layout, LayoutGrid])
            if cls is LayoutGrid:
                return LayoutGrid(shape, 1, **kw), ids, shape
            kw['center'] = np.zeros(shape + (2,))
        return cls(shape, **kw), ids, shape

    def create(self):
        rnd = self.rnd
        layout, ids, shape = self.layout()
        name = rnd.choice(['x', 'y', ''])
        forms = [lambda: Instrument(name, layout), lambda: Instrument(layout, name), lambda: Instrument(layout=layout, name=name),
                 lambda: Imager(name, layout, object2image=HomothetyOperator(2)),
                 lambda: Imager(name, layout=layout, image2object=HomothetyOperator(2))]
        if name == '':
            forms = [lambda: Instrument(layout), lambda: Instrument(layout, None),
                     lambda: Imager(None, layout, image2object=HomothetyOperator(2))]
        st, r = call(rnd.choice(forms))
        if st == 'ok':
            r.tag = (layout, shape)
            self.world.append(r)
        self.add({'op': 'create', 'name': name, 'ids': ids}, st, r)

    def pick(self):
        i = self.rnd.randrange(len(self.world))
        return i + 1, self.world[i]

    def sel(self, n):
        rnd = self.rnd
        kind = rnd.choice(['slice', 'slice', 'int', 'list', 'mask', 'all'])
        if kind == 'slice':
            b = [NONE] + list(range(-n - 2, n + 3))
            return ['slice', rnd.choice(b), rnd.choice(b), rnd.choice([1, 1, 2, 3, -1, -2])]
        if kind == 'int':
            return ['int', rnd.randint(-n - 1, n)]
        if kind == 'list':
            x = rnd.sample(range(n), rnd.randint(0, n))
            return ['list', [_ - n if rnd.random() < 0.3 else _ for _ in x]]
        if kind == 'mask':
            return ['mask', [rnd.random() < 0.6 for _ in range(n)]]
        return ['all']

    def select(self):
        i, a = self.pick()
        sel = self.sel(len(a))
        st, r = call(lambda: a[selection(sel, self.rnd)])
        if st == 'ok':
            assert r.tag is a.tag and type(r) is type(a)
            self.world.append(r)
        self.add({'op': 'select', 'i': i, 'sel': sel}, st, r)

    def split(self):
        i, a = self.pick()
        n = self.rnd.randint(1, 4)
        st, r = call(lambda: a.split(n))
        if st == 'ok':
            self.world += list(r)
        self.add({'op': 'split', 'i': i, 'n': n}, st, r)

    def iterate(self):
        i, a = self.pick()
        st, r = call(lambda: list(a))
        if st == 'ok':
            self.world += r
        self.add({'op': 'iterate', 'i': i}, st, r)

    def assign(self):
        i, a = self.pick()
        gain = [self.rnd.randint(10, 99) for _ in range(len(a))]
        if self.rnd.random() < 0.3:
            gain = [gain[0] if gain else 0] * len(a)

        def f():
            a.detector.gain = np.array(gain, int)

        st, r = call(f)
        self.add({'op': 'assign', 'i': i, 'gain': gain}, st, r)

    def rename(self):
        i, a = self.pick()
        a.name = self.rnd.choice(['u', 'v'])
        self.add({'op': 'rename', 'i': i, 'name': a.name}, 'ok')

    def pack(self):
        i, a = self.pick()
        shape = a.tag[1]
        n = int(np.prod(shape))
        v = [self.rnd.randint(0, 99) for _ in range(n)]
        dtype = self.rnd.choice(['f8', 'i8', 'f4'])
        x = np.array(v, dtype).reshape(shape)
        st, r = call(lambda: [num(_) for _ in a.pack(x)])
        self.add({'op': 'pack', 'i': i, 'v': v, 'obs': r if st == 'ok' else []}, st, r)

    def unpack(self):
        i, a = self.pick()
        shape = a.tag[1]
        v = [self.rnd.randint(0, 99) for _ in range(len(a))]
        dtype = np.dtype(self.rnd.choice(['f8', 'i8', 'f4']))

        def f():
            r = a.unpack(np.array(v, dtype))
            assert r.shape == shape and r.dtype == dtype
            return [num(_) for _ in r.ravel().tolist()]

        st, r = call(f)
        self.add({'op': 'unpack', 'i': i, 'v': v, 'n': int(np.prod(shape)), 'missing': NAN if dtype.kind == 'f' else -1,
                  'obs': r if st == 'ok' else []}, st, r)

    def imager(self):
        rnd = self.rnd
        layout, ids, _ = self.layout()
        factor = rnd.choice([2, 4, -2, 8])
        x = [rnd.randint(-9, 9) for _ in range(4)]
        way = rnd.random() < 0.5

        def f():
            u = rnd.randrange(3)
            k = factor if way else 1 / factor
            op = k if u == 0 else HomothetyOperator(k) if u == 1 else DiagonalOperator([float(k)] * 4)
            im = Imager('x', layout, **{'object2image' if way else 'image2object': op})
            if rnd.random() < 0.5:
                im = im[:1]
            y = im.object2image(np.array(x, float))
            return [num(_) for _ in y], [num(_) for _ in im.image2object(y)]

        st, r = call(f)
        image, obj = r if st == 'ok' else ([], [])
        self.add({'op': 'imager', 'factor': factor, 'x': x, 'image': image, 'object': obj}, st, r)

    def arrays(self, k, step, shape):
        """Angles as a scalar, a sequence or an array."""
        rnd = self.rnd
        x = np.array(k, float).reshape(shape) * step
        u = rnd.randrange(5)
        if not shape:
            return float(x) if u < 3 else x
        if u == 0:
            return x.tolist()
        if u == 1:
            return np.asfortranarray(x)
        if u == 2:
            y = np.full((2 * len(x),) + x.shape[1:], np.nan)
            y[::2] = x
            return y[::2]
        return x

    def beam(self):
        rnd = self.rnd
        shapes = [((), ()), ((3,), ()), ((), (3,)), ((3,), (3,)), ((2, 1), (3,)), ((3,), (2, 1)), ((2, 3), (3,)), ((1, 3), (2, 1)), ((2, 2), ())]
        s1, s2 = rnd.choice(shapes)
        sigma = rnd.choice([1, 2, 4, 8])            # in 1 / 8 radian
        n = int(np.prod(s1, dtype=int))
        k = [rnd.randint(0, 16) for _ in range(n)]
        backward = rnd.random() < 0.5
        theta = self.arrays(k, sigma / 32, s1)
        if backward:
            theta = (np.pi - np.array(theta)).tolist() if isinstance(theta, list) else np.pi - theta
        phi = self.arrays([rnd.randint(0, 6) for _ in range(int(np.prod(s2, dtype=int)))], 1, s2)
        expected = np.broadcast_shapes(s1, s2)
        before = np.array(theta)

        def f():
            kw = {'backward': True} if backward else rnd.choice([{}, {'backward': False}])
            b = BeamGaussian(sigma / 8 * np.sqrt(8 * np.log(2)), **kw)
            r = np.asarray(b(theta, phi))
            assert np.array_equal(before, theta)
            return list(r.shape), [int(round(_ * 32768)) for _ in r.ravel().tolist()], int(round(b.solid_angle * 1024))

        st, r = call(f)
        shape, obs, solid = r if st == 'ok' else ([], [], 0)
        kk = np.broadcast_to(np.array(k).reshape(s1), expected).ravel().tolist()
        self.add({'op': 'beam', 'sigma': sigma, 'k': kk, 'expected': list(expected), 'shape': shape, 'obs': obs, 'solid': solid}, st, r)

    def uniform(self):
        rnd = self.rnd
        s1, s2 = rnd.choice([((), ()), ((3,), ()), ((), (3,)), ((2, 1), (3,)), ((2, 3), (3,))])
        expected = np.broadcast_shapes(s1, s2)

        def f():
            b = BeamUniformHalfSpace()
            r = np.asarray(b(self.arrays([0] * int(np.prod(s1, dtype=int)), 1, s1), self.arrays([0] * int(np.prod(s2, dtype=int)), 1, s2)))
            return list(r.shape), [num(_) for _ in r.ravel().tolist()], int(round(b.solid_angle * 1024))

        st, r = call(f)
        shape, obs, solid = r if st == 'ok' else ([], [], 0)
        self.add({'op': 'uniform', 'expected': list(expected), 'shape': shape, 'obs': obs, 'solid': solid}, st, r)

    def healpix(self):
        nside = self.rnd.choice([1, 2])
        fwhm = self.rnd.choice([0.5, 1, 2])
        backward = self.rnd.random() < 0.5

        def f():
            a, b = [BeamGaussian(fwhm, backward=_).healpix(nside) for _ in (backward, not backward)]
            return [[int(round(_ * 32768)) for _ in x.tolist()] for x in (a, b)]

        st, r = call(f)
        obs, opposite = r if st == 'ok' else ([], [])
        self.add({'op': 'healpix', 'nside': nside, 'backward': backward, 'obs': obs, 'opposite': opposite}, st, r)

    def observed(self):
        if self.policy is None:
            return {}
        q = self.policy
        a = self.rnd.choice([lambda: np.array(q), lambda: np.asarray(q), lambda: np.array(q, dtype=np.int8), lambda: np.array(q, float)])()
        return {'array': [num(_) for _ in a.tolist()], 'text': str(q)}

    def setpolicy(self):
        rnd = self.rnd
        if self.policy is not None and self.policy._flags and rnd.random() < 0.5:
            flag, value = rnd.choice(list(self.policy._flags)), rnd.choice(['keep', 'mask', 'remove'])
            setattr(self.policy, flag, value)
            self.add(dict({'op': 'setpolicy', 'flag': flag, 'value': value}, **self.observed()), 'ok')
            return
        n = rnd.randint(1, 4)
        m = n if rnd.random() < 0.85 else rnd.randint(1, 4)
        flags = [rnd.choice(['a', 'b', 'flag', 'x1', 'y'] + ['_a'] * (rnd.random() < 0.2)) for _ in range(n)]
        values = [rnd.choice(['keep', 'mask', 'remove'] * 4 + ['masks', 'none', '']) for _ in range(m)]

        def decorate(x, case=False):
            if case and rnd.random() < 0.4:
                x = rnd.choice([str.upper, str.title])(x)
            return ' ' * rnd.randint(0, 1) + x + ' ' * rnd.randint(0, 1) if rnd.random() < 0.4 else x

        def form(x):
            u = rnd.randrange(5)
            return ','.join(x) if u < 2 else tuple(x) if u == 2 else np.array(x) if u == 3 else x

        d = rnd.choice(['', 'text'])
        kw = {'description': d} if d else {}
        st, r = call(lambda: MaskPolicy(form([decorate(_) for _ in flags]), form([decorate(_, True) for _ in values]), **kw))
        if st == 'ok':
            self.policy = r
        self.add(dict({'op': 'policy', 'd': d, 'flags': [{'name': _, 'under': _[0] == '_'} for _ in flags], 'values': values},
                      **self.observed()), st, r)

    def refusals(self):
        layout, _, shape = self.layout()
        name, error, f = self.rnd.choice([
            ('imager without transformations', 'ValueError', lambda: Imager('x', layout)),
            ('operator of the base class', 'NotImplementedError', lambda: Instrument('x', layout).get_operator(None, None)),
            ('values packed with another shape', 'ValueError', lambda: Instrument('x', layout).pack(np.zeros(37))),
            ('values unpacked with another shape', 'ValueError', lambda: Instrument('x', layout).unpack(np.zeros(37))),
        ])
        st, r = call(f)
        self.add({'op': 'refused', 'name': name, 'error': 'exc:' + error}, st, r)


def history(rnd):
    r = Recorder(rnd)
    kind = rnd.randrange(3)
    if kind == 0:
        for _ in range(rnd.randint(2, 5)):
            rnd.choice([r.beam, r.beam, r.uniform, r.healpix, r.imager, r.refusals])()
    elif kind == 1:
        for _ in range(rnd.randint(2, 5)):
            r.setpolicy()
    else:
        r.create()
        for _ in range(rnd.randint(3, 9)):
            if len(r.world) > 10 or not r.world:
                break
            rnd.choice([r.create, r.select, r.select, r.select, r.split, r.iterate, r.assign, r.assign, r.rename, r.pack, r.unpack])()
    return r.events
