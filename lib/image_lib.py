"""Images, profiles and power spectra (Images.tla)."""
import multiprocessing

import numpy as np
from enc import NAN, call, near, num
from pysimulators import (
    FitsArray,
    Map,
    Quantity,
    airy_disk,
    aperture_circular,
    distance,
    gaussian,
    integrated_profile,
    phasemask_fourquadrant,
    profile,
    profile_psd2,
    psd2,
)
from pysimulators.datautils import distance2

multiprocessing.cpu_count = lambda: 1   # no threads in the transforms of the recording processes
FLAG = 'FFTW_ESTIMATE'
NONE = 99999


def scaled(x, scale):
    """Rounded values, NaN kept."""
    return [NAN if v != v else int(round(float(v) * scale)) for v in np.asarray(x).ravel().tolist()]


def unit(x):
    return str(getattr(x, 'unit', ''))


class Recorder:
    def __init__(self, rnd):
        self.rnd = rnd
        self.events = []

    def add(self, e, st, out=None):
        e['st'] = st
        if st != 'ok':
            e['_msg'] = str(out)
        self.events.append(e)

    def shape(self, ndim=None, n=6):
        rnd = self.rnd
        ndim = ndim or rnd.choice([1, 2, 2, 2, 3, 3, 4])
        n = {1: 9, 2: n, 3: 4, 4: 3}[ndim]
        return [rnd.randint(1, n) for _ in range(ndim)]

    def asshape(self, shape):
        rnd = self.rnd
        if len(shape) == 1 and rnd.random() < 0.5:
            return shape[0]
        return rnd.choice([tuple(shape), list(shape), np.array(shape)]) if rnd.random() < 0.5 else tuple(shape)

    def center(self, shape, kw, den=4, name='center'):
        """Centre in units of 1 / den, x first."""
        rnd = self.rnd
        if rnd.random() < 0.35:
            return [den * (_ - 1) // 2 for _ in shape[::-1]] if den % 2 == 0 else None
        c = [rnd.randint(-den, den * (_ + 1)) for _ in shape[::-1]]
        if rnd.random() < 0.3:
            c = [den * (_ // den) for _ in c]
        x = [_ / den for _ in c]
        if len(x) == 1 and rnd.random() < 0.5:
            kw[name] = x[0]
        elif all(_ % den == 0 for _ in c) and rnd.random() < 0.5:
            kw[name] = tuple(_ // den for _ in c)
        else:
            kw[name] = rnd.choice([tuple, list, np.array])(x)
        return c

    def scale(self, shape, kw, units=False):
        rnd = self.rnd
        if rnd.random() < 0.35:
            return [2] * len(shape), ''
        if rnd.random() < 0.5:
            s = [rnd.choice([1, 2, 3, 4])] * len(shape)
            kw['scale'] = s[0] / 2
        else:
            s = [rnd.choice([1, 2, 3, 4]) for _ in shape]
            kw['scale'] = rnd.choice([tuple, list, np.array])([_ / 2 for _ in s])
        if units and rnd.random() < 0.4:
            kw['scale'] = Quantity(kw['scale'], 'm')
            return s, 'm'
        return s, ''

    def dtypes(self):
        return np.dtype(self.rnd.choice(['f8', 'f8', 'f4', 'f4', 'f2', 'i4', 'i8', 'c16']))

    def distances(self):
        rnd = self.rnd
        shape = self.shape()
        squared = rnd.random() < 0.5
        kw = {}
        c = self.center(shape, kw)
        s, u = self.scale(shape, kw, units=True)
        dtype = np.dtype(float)
        out = None
        if rnd.random() < 0.6:
            dtype = self.dtypes()
            if rnd.random() < 0.4:
                out = np.full(shape, 7, dtype)
                if rnd.random() < 0.3:
                    kw['dtype'] = float
            else:
                kw['dtype'] = rnd.choice([dtype, dtype.type])
        inputs = {k: np.array(v) for k, v in kw.items() if k in ('center', 'scale')}

        def f():
            r = (distance2 if squared else distance)(self.asshape(shape), **kw, **({} if out is None else {'out': out}))
            x = np.asarray(r if out is None else out)
            if x.dtype.kind == 'c':
                assert not x.imag.any()
                x = x.real
            meta = r.shape == tuple(shape) and r.dtype == dtype and type(r) is Map
            kept = all(np.all(np.asarray(kw[k]) == v) for k, v in inputs.items())
            return scaled(x, 1 if x.dtype.kind == 'i' else 1024), unit(r), meta and (out is None or np.shares_memory(r, out)), kept

        st, r = call(f)
        obs, v, meta, kept = r if st == 'ok' else ([], '', False, False)
        self.add({'op': 'distance', 'shape': shape, 'c': c, 's': s, 'u': u, 'squared': squared, 'obs': obs, 'unit': v, 'meta': meta,
                  'kept': kept, 'kind': 'h' if dtype == np.float16 else 'i' if dtype.kind == 'i' else 'f'}, st, r)

    def apertures(self):
        rnd = self.rnd
        shape = self.shape(rnd.choice([1, 2, 2, 2, 2, 3]))
        kw = {}
        c = self.center(shape, kw)
        s, u = self.scale(shape, kw, units=True)
        d = rnd.randint(0, 16)
        dtype = np.dtype(float)
        if rnd.random() < 0.5:
            dtype = np.dtype(rnd.choice(['f8', 'f4', 'i4', 'i1', '?', 'u1', 'c16']))
            kw['dtype'] = dtype
        diameter = d / 2 if d % 2 or rnd.random() < 0.5 else d // 2
        if u:
            diameter = Quantity(diameter, u)

        def f():
            r = aperture_circular(self.asshape(shape), diameter, **kw)
            return [num(_) for _ in np.asarray(r).ravel().tolist()], unit(r), r.shape == tuple(shape) and r.dtype == dtype and type(r) is Map

        st, r = call(f)
        obs, v, meta = r if st == 'ok' else ([], '', False)
        self.add({'op': 'aperture', 'shape': shape, 'c': c, 's': s, 'd': d, 'obs': obs, 'unit': v, 'meta': meta, 'kept': True}, st, r)

    def image(self, v, shape, dtype):
        rnd = self.rnd
        x = np.array([np.nan if _ == NAN else _ for _ in v]).reshape(shape).astype(dtype)
        u = rnd.randrange(7)
        if u == 0:
            return np.asfortranarray(x)
        if u == 1:
            y = np.full((2 * shape[0], shape[1]), 9, dtype)
            y[::2] = x
            return y[::2]
        if u == 2:
            return Map(x, dtype=dtype, unit=rnd.choice([None, 'Jy']))
        if u == 3:
            return FitsArray(x, dtype=dtype)
        if u == 4:
            return x.astype(x.dtype.newbyteorder())
        if u == 5:
            return x.tolist()
        return x

    def profiles(self):
        rnd = self.rnd
        nr, nc = self.shape(2)
        integrated = rnd.random() < 0.4
        v = [rnd.randint(-4, 9) for _ in range(nr * nc)]
        dtype = rnd.choice(['f8', 'f8', 'f4', 'i4', 'i8'])
        if dtype[0] == 'f' and rnd.random() < 0.5:
            v = [NAN if rnd.random() < 0.3 else _ for _ in v]
        kw = {}
        c = self.center([nr, nc], kw)
        b, s, nbins = 4, 2, NONE
        if rnd.random() < 0.6:
            b = rnd.choice([1, 2, 3, 4, 5, 6, 8])
            kw['bin'] = b // 4 if b % 4 == 0 and rnd.random() < 0.5 else b / 4
        if rnd.random() < 0.4:
            s = rnd.choice([1, 2, 4])
            kw['scale'] = s / 2
        m = (max(4 * nr - c[1], c[1], 4 * nc - c[0], c[0]) * s) // (2 * b)
        if rnd.random() < 0.5 or m < 1:
            kw['nbins'] = nbins = rnd.randint(1, 9)
        histogram = not integrated and rnd.random() < 0.6
        image = self.image(v, (nr, nc), dtype)
        before = np.array(image, copy=True)

        def f():
            if integrated:
                x, y = integrated_profile(image, **kw)
                return [near(_, 1024) for _ in x], [near(_, 4) for _ in y], [], np.array_equal(before, image, equal_nan=dtype[0] == 'f')
            x, y, n = profile(image, histogram=True, **kw)
            if not histogram:
                r = profile(image, **kw)
                assert len(r) == 2
                x, y = r
            n = n.tolist()
            return (scaled(x, 1024), [NAN if k == 0 and t != t else near(t * max(k, 1), 1, 1e-3) for t, k in zip(y, n)], n,
                    np.array_equal(before, image, equal_nan=dtype[0] == 'f'))

        st, r = call(f)
        x, y, n, kept = r if st == 'ok' else ([], [], [], False)
        self.add({'op': 'profile', 'integrated': integrated, 'nr': nr, 'nc': nc, 'v': v, 'c': c, 'b': b, 's': s, 'nbins': nbins,
                  'x': x, 'y': y, 'n': n, 'meta': True, 'kept': kept}, st, r)

    def gaussians(self):
        rnd = self.rnd
        shape = self.shape(rnd.choice([1, 2, 2, 2, 3]))
        kw = {}
        c = self.center(shape, kw, den=2)
        if rnd.random() < 0.4:
            s = [rnd.choice([1, 2, 4])] * len(shape)
            x = s[0] / 2
        else:
            s = [rnd.choice([1, 2, 4]) for _ in shape]
            x = rnd.choice([tuple, list, np.array])([_ / 2 for _ in s])
        if rnd.random() < 0.5:
            kw['sigma'] = x
        else:
            kw['fwhm'] = (x if np.isscalar(x) else np.array(x)) * np.sqrt(8 * np.log(2))
        dtype = np.dtype(float)
        if rnd.random() < 0.4:
            dtype = np.dtype(rnd.choice(['f4', 'f8']))
            kw['dtype'] = rnd.choice([dtype, dtype.type])

        def f():
            r = gaussian(self.asshape(shape), **kw)
            return scaled(r, 32768), r.shape == tuple(shape) and r.dtype == dtype

        st, r = call(f)
        obs, meta = r if st == 'ok' else ([], False)
        self.add({'op': 'gaussian', 'shape': shape, 'c': c, 's': s, 'obs': obs, 'meta': meta, 'kept': True}, st, r)

    def airys(self):
        rnd = self.rnd
        shape = self.shape(2)
        kw = {}
        c = self.center(shape, kw)
        s, u = self.scale(shape, kw, units=True)
        zero = rnd.random() < 0.5
        # largest squared distance, in units of 1 / 64
        d2 = sum((max(abs(a), abs(4 * (n - 1) - a)) * k) ** 2 for a, n, k in zip(c, shape[::-1], s))
        r = rnd.choice([4, 8, 12, 16, 20, 24, 32])
        while d2 * 3759 > 16000 * r * r:
            r += 4
        kw['r0' if zero else 'fwhm'] = r / 8
        if u:
            kw['r0' if zero else 'fwhm'] = Quantity(r / 8, u)
        dtype = np.dtype(float)
        if rnd.random() < 0.3:
            dtype = np.dtype(rnd.choice(['f4', 'f8']))
            kw['dtype'] = dtype

        def f():
            x = airy_disk(self.asshape(shape), **kw)
            return scaled(x, 65536), x.shape == tuple(shape) and x.dtype == dtype and unit(x) == ''

        st, x = call(f)
        obs, meta = x if st == 'ok' else ([], False)
        self.add({'op': 'airy', 'shape': shape, 'c': c, 's': s, 'r': r, 'zero': zero, 'obs': obs, 'meta': meta, 'kept': True}, st, x)

    def phases(self):
        rnd = self.rnd
        nr, nc = self.shape(2)
        p = rnd.choice([[-1, 0], [0, 1], [1, 1], [3, 0]])
        kw = {} if p == [-1, 0] and rnd.random() < 0.5 else {'phase': complex(*p) if p[1] or rnd.random() < 0.5 else p[0]}

        def f():
            r = phasemask_fourquadrant((nr, nc), **kw)
            return [[num(_.real), num(_.imag)] for _ in np.asarray(r).ravel().tolist()], r.shape == (nr, nc) and r.dtype == complex

        st, r = call(f)
        obs, meta = r if st == 'ok' else ([], False)
        self.add({'op': 'phase', 'nr': nr, 'nc': nc, 'phase': p, 'obs': obs, 'meta': meta, 'kept': True}, st, r)

    def spectra(self, ring=False):
        rnd = self.rnd
        nr, nc = rnd.choice([1, 2, 3, 4, 6]), rnd.choice([1, 2, 3, 4, 6])
        if ring:
            nr = nc = rnd.choice([2, 3, 4, 6])
        dtype = rnd.choice(['f8', 'f8', 'f4', 'i4', 'i8', 'c16', '?'])
        if dtype == 'c16':
            v = [[rnd.randint(-3, 3), rnd.randint(-3, 3)] for _ in range(nr * nc)]
            x = np.array([complex(*_) for _ in v]).reshape(nr, nc)
        else:
            v = [[rnd.randint(0, 1) if dtype == '?' else rnd.randint(-4, 4), 0] for _ in range(nr * nc)]
            x = self.image([_[0] for _ in v], (nr, nc), dtype)
        kw = {'fftw_flag': FLAG}
        fs = 1
        if rnd.random() < 0.5:
            fs = rnd.choice([2, 4, 3])
            kw['sampling_frequency'] = rnd.choice([fs, float(fs)])
        before = np.array(x, copy=True)

        def f():
            if ring:
                a, b = profile_psd2(x, **kw)
                return scaled(np.asarray(b) * (nr * nc * fs ** 2), 64), scaled(np.asarray(a) * nr / fs, 1024), np.array_equal(before, x)
            r = psd2(x, **kw)
            assert r.shape == (nr, nc)
            return scaled(np.asarray(r) * (nr * nc * fs ** 2), 64), [], np.array_equal(before, x)

        st, r = call(f)
        y, a, kept = r if st == 'ok' else ([], [], False)
        e = {'nr': nr, 'v': v, 'meta': True, 'kept': kept}
        if ring:
            self.add(dict(e, op='ring', x=a, y=y), st, r)
        else:
            self.add(dict(e, op='psd', nc=nc, obs=y), st, r)

    def rings(self):
        self.spectra(ring=True)

    def refusals(self):
        name, f = self.rnd.choice([
            ('gaussian without a shape', lambda: gaussian((3, 3))),
            ('Airy disk without a scale', lambda: airy_disk((3, 3))),
            ('spectrum of a cube', lambda: psd2(np.ones((2, 2, 2)))),
            ('spectrum of a vector', lambda: psd2(np.ones(4))),
            ('profile of the spectrum of a rectangle', lambda: profile_psd2(np.ones((2, 3)))),
        ])
        st, r = call(f)
        self.add({'op': 'refused', 'name': name}, st, r)


def history(rnd):
    r = Recorder(rnd)
    for _ in range(rnd.randint(2, 4)):
        rnd.choice([r.distances, r.distances, r.apertures, r.profiles, r.profiles, r.profiles, r.gaussians, r.airys, r.phases,
                    r.spectra, r.rings, r.refusals])()
    return r.events
