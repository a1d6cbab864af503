"""HEALPix pixels, convolutions, laplacians and scenes (Healpix.tla)."""
import math
import warnings

import healpy as hp
import numpy as np
from enc import NAN, NONINT, call, near, num
from scipy.constants import c as C
from scipy.constants import h as H
from scipy.constants import k as K

from pyoperators import IdentityOperator
from pysimulators.interfaces.healpy import (
    Cartesian2HealpixOperator,
    Healpix2CartesianOperator,
    Healpix2SphericalOperator,
    HealpixConvolutionGaussianOperator,
    HealpixLaplacianOperator,
    SceneHealpix,
    SceneHealpixCMB,
    Spherical2HealpixOperator,
)

CONVENTIONS = ('zenith,azimuth', 'azimuth,zenith', 'elevation,azimuth', 'azimuth,elevation', 'cartesian')
TURN = 65536      # units of a right angle
ZQ, TQ = 101, 37  # heights and azimuths which are never on the edge of a pixel (nside < 37)


def topixel(n, convention, nest, **kw):
    if convention == 'cartesian':
        return Cartesian2HealpixOperator(n, nest=nest, **kw)
    return Spherical2HealpixOperator(n, convention, nest=nest, **kw)


def todirection(n, convention, nest, **kw):
    if convention == 'cartesian':
        return Healpix2CartesianOperator(n, nest=nest, **kw)
    return Healpix2SphericalOperator(n, convention, nest=nest, **kw)


def encode(convention, z, t, scale=1.):
    """Coordinates of the directions of height z and azimuth t, in right angles."""
    z, a = np.asarray(z, float), np.asarray(t, float) * np.pi / 2
    if convention == 'cartesian':
        r = np.sqrt(1 - z**2)
        return scale * np.stack([r * np.cos(a), r * np.sin(a), z], -1)
    b = np.arcsin(z) if 'elevation' in convention else np.arccos(z)
    return np.stack([a, b] if convention.startswith('azimuth') else [b, a], -1)


def decode(convention, x):
    """Height and azimuth, in right angles."""
    x = np.asarray(x, float)
    if convention == 'cartesian':
        if x.size and np.max(np.abs(np.sum(x**2, -1) - 1)) > 1e-9:
            raise ValueError('Not a unit vector.')
        z, a = x[..., 2], np.arctan2(x[..., 1], x[..., 0])
    else:
        a, b = (x[..., 0], x[..., 1]) if convention.startswith('azimuth') else (x[..., 1], x[..., 0])
        z = np.sin(b) if 'elevation' in convention else np.cos(b)
    return z, a / (np.pi / 2)


def centers(n, convention, nest, p):
    z, a = decode(convention, todirection(n, convention, nest)(p))
    return [near(_, 3 * n * n) for _ in z], a.tolist()


def same_angle(a, t, d):
    delta = (a - t / d) % 4
    return min(delta, 4 - delta) < 1e-9


def pixels(n, convention, nest, z, t):
    return [num(_) for _ in np.ravel(topixel(n, convention, nest)(encode(convention, [z], [t]))).tolist()]


def scaled(x, scale):
    return [NAN if v != v else NONINT if abs(v * scale) > 2e9 else int(round(v * scale))
            for v in np.asarray(x, float).ravel().tolist()]


class Recorder:
    def __init__(self, rnd):
        self.rnd = rnd
        self.events = []

    def add(self, e, st, out=None):
        e['st'] = st
        if st != 'ok':
            e['_msg'] = str(out)
        self.events.append(e)

    def grid(self, nest):
        return self.rnd.choice([1, 2, 4, 8] if nest else [1, 2, 3, 4, 5, 7, 8, 16, 32])

    def spec(self, convention):
        """The name of a convention is not sensitive to spaces and case."""
        rnd = self.rnd
        if convention != 'cartesian' and rnd.random() < 0.3:
            convention = convention.replace(',', ', ')
            if rnd.random() < 0.5:
                convention = convention.title()
        return convention

    def shape(self):
        return self.rnd.choice([(), (1,), (3,), (4,), (2, 2), (2, 1, 2), (3,), (2, 3)])

    def layout(self, x):
        """Same values, other memory layouts and types."""
        rnd = self.rnd
        k = rnd.random()
        if k < 0.15:
            return x.tolist()
        if k < 0.3 and x.ndim:
            return np.asfortranarray(x)
        if k < 0.45 and x.ndim:
            y = np.empty((2 * x.shape[0],) + x.shape[1:], x.dtype)
            y[1::2] = x
            return y[1::2]
        return x

    def locate(self):
        rnd = self.rnd
        convention = rnd.choice(CONVENTIONS)
        nest = rnd.random() < 0.4
        n = self.grid(nest)
        shape = self.shape()
        k = int(np.prod(shape))
        z = [rnd.choice([-1, 1]) * rnd.randint(1, ZQ - 1) for _ in range(k)]
        t = [rnd.choice([_ for _ in range(4 * TQ) if _ % TQ]) for _ in range(k)]
        x = encode(convention, np.array(z) / ZQ, np.array(t) / TQ, rnd.choice([1, 0.25, 3, 1e5])).reshape(shape + (-1,))
        x0 = x.copy()
        via = rnd.random()
        how = rnd.choice(['call', 'call', 'out', 'inverse'])

        def f():
            if how == 'inverse':
                op = todirection(n, self.spec(convention), nest).I
            elif convention != 'cartesian' and via < 0.3:
                op = SceneHealpix(n, nest=nest, convention=self.spec(convention)).topixel
            else:
                op = topixel(n, self.spec(convention), nest)
            if how == 'out':
                out = np.empty(shape)
                op(x, out)
                return out
            return op(self.layout(x))
        st, out = call(f)
        e = {'op': 'locate', 'n': n, 'nest': nest, 'z': z, 't': t, 'zq': ZQ, 'tq': TQ, '_convention': convention}
        if st == 'ok':
            e.update(obs=[num(_) for _ in np.ravel(out).tolist()], shaped=np.shape(out) == shape,
                     kept=bool(np.array_equal(x, x0)))
        self.add(e, st, out)

    def center(self):
        rnd = self.rnd
        convention = rnd.choice(CONVENTIONS)
        nest = rnd.random() < 0.4
        n = self.grid(nest)
        shape = self.shape()
        k = int(np.prod(shape))
        p = [rnd.choice([rnd.randrange(12 * n * n), rnd.randrange(min(12 * n * n, 2 * n * (n + 1))), 0, 12 * n * n - 1])
             for _ in range(k)]
        x = np.array(p, rnd.choice([int, float, np.int32, np.float32])).reshape(shape)
        x0 = x.copy()
        how = rnd.choice(['call', 'call', 'out', 'inverse'])
        via = rnd.random()

        def f():
            if how == 'inverse':
                op = topixel(n, self.spec(convention), nest).I
            elif convention != 'cartesian' and via < 0.3:
                op = SceneHealpix(n, nest=nest, convention=self.spec(convention)).toworld
            else:
                op = todirection(n, self.spec(convention), nest)
            if how == 'out':
                out = np.empty(shape + (3 if convention == 'cartesian' else 2,))
                op(x, out)
            else:
                out = op(self.layout(x))
            return out, decode(convention, out)
        st, out = call(f)
        e = {'op': 'center', 'n': n, 'nest': nest, 'p': p, '_convention': convention}
        if st == 'ok':
            out, (z, a) = out
            e.update(z=[near(_, 3 * n * n) for _ in z.ravel().tolist()], a=scaled(a, TURN),
                     shaped=out.shape == shape + (3 if convention == 'cartesian' else 2,),
                     kept=bool(np.array_equal(x, x0)))
        self.add(e, st, out)

    def roundtrip(self):
        """Composition of the conversions to directions and to the pixels of a possibly different scheme."""
        rnd = self.rnd
        convention = rnd.choice(CONVENTIONS)
        nest1, nest2 = rnd.random() < 0.5, rnd.random() < 0.5
        n = self.grid(nest1 or nest2)
        p = [rnd.randrange(12 * n * n) for _ in range(rnd.randint(1, 4))]
        st, out = call(lambda: (topixel(n, convention, nest2)(todirection(n, convention, nest1)))(np.array(p, float)))
        e = {'op': 'roundtrip', 'n': n, 'from': nest1, 'to': nest2, 'p': p, '_convention': convention}
        if st == 'ok':
            e.update(obs=[num(_) for _ in np.ravel(out).tolist()], shaped=np.shape(out) == (len(p),), kept=True)
        self.add(e, st, out)

    def composed(self):
        """Composition of operators with different resolutions or conventions: the sequence of its steps."""
        rnd = self.rnd
        c1 = rnd.choice(CONVENTIONS)
        c2 = c1
        if c1 != 'cartesian' and rnd.random() < 0.6:
            c2 = c1.replace('elevation', '#').replace('zenith', 'elevation').replace('#', 'zenith')
        nest1, nest2 = rnd.random() < 0.5, rnd.random() < 0.5
        n1, n2 = self.grid(True), self.grid(True)
        x = np.array([rnd.randrange(2 * n1 * n1) for _ in range(4)], float)      # angles from 0 to 90 degrees
        if nest1:
            x = hp.ring2nest(n1, x.astype(int)).astype(float)

        def f():
            o1, o2 = todirection(n1, c1, nest1), topixel(n2, c2, nest2)
            return o2(o1)(x), o2(o1(x))
        st, out = call(f)
        e = {'op': 'composed', '_conventions': [c1, c2], '_n': [n1, n2], '_nest': [nest1, nest2], 'kept': True}
        if st == 'ok':
            e.update(obs=[num(_) for _ in np.ravel(out[0]).tolist()], steps=[num(_) for _ in np.ravel(out[1]).tolist()],
                     shaped=out[0].shape == (4,))
        self.add(e, st, out)

    def laplacian(self):
        rnd = self.rnd
        n = rnd.choice([1, 2, 2, 4])
        npix = 12 * n * n
        k = rnd.choice([0, 0, 1, 2])
        shape = (npix, k) if k else (npix,)
        m = np.array([rnd.choice([0, 0, rnd.randint(-9, 9)]) for _ in range(npix * max(k, 1))]).reshape(shape)
        x = m.astype(rnd.choice([float, float, int]))
        t = rnd.random() < 0.3

        def f():
            op = HealpixLaplacianOperator(n)
            return (op.T if t else op)(x)
        st, out = call(f)
        e = {'op': 'laplacian', 'n': n, 'm': m.reshape(npix, -1).T.tolist()}
        if st == 'ok':
            h2 = 4 * np.pi / npix
            y = np.asarray(out)
            e.update(obs=[[near(_, 6 * h2) for _ in col] for col in y.reshape(npix, -1).T.tolist()], shaped=y.shape == shape,
                     kept=bool(np.array_equal(x, m)))
        self.add(e, st, out)

    def smooth(self):
        rnd = self.rnd
        n = rnd.choice([2, 4, 4])
        npix = 12 * n * n
        s2 = rnd.choice([0, 1, 2, 3, 4, 8, 16, 32])
        k = rnd.choice([0, 0, 1, 2, 3])
        pol = k != 2 and rnd.random() < 0.5        # healpy: polarised maps come in threes
        cols = [[rnd.randint(-9, 9), rnd.randint(-4, 4), rnd.randint(-2, 2)] for _ in range(max(k, 1))]
        if k == 3 and pol:
            cols[1:] = [[0, 0, 0], [0, 0, 0]]
        kw = {'sigma': math.sqrt(s2 / 32)} if rnd.random() < 0.5 else {'fwhm': math.sqrt(s2 / 32 * 8 * math.log(2))}
        kw['iter'] = 10
        lmax = 3 * n
        if rnd.random() < 0.3 and s2 and not (k == 3 and pol):
            lmax = kw['lmax'] = rnd.choice([0, 2])
            if lmax == 0:
                cols = [[c, a, 0] for c, a, b in cols]
        z = np.round(hp.pix2vec(n, np.arange(npix))[2] * 3 * n * n).astype(int)
        x = np.array([c + a * z + b * (3 * z**2 - 9 * n**4) for c, a, b in cols], float).T
        x = x if k else x[:, 0]
        x0 = x.copy()
        if not pol or rnd.random() < 0.5:
            kw['pol'] = pol
        t = rnd.random() < 0.3

        def f():
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                op = HealpixConvolutionGaussianOperator(**kw)
                return (op.T if t else op)(x), isinstance(op, IdentityOperator)
        st, out = call(f)
        e = {'op': 'smooth', 'n': n, 's2': s2, 'cols': cols, 'lmax': lmax}
        if st == 'ok':
            out, identity = out
            e.update(obs=[scaled(_, 1024) for _ in out.reshape(npix, -1).T], shaped=out.shape == x.shape,
                     kept=bool(np.array_equal(x, x0)), identity=bool(identity))
        self.add(e, st, out)

    def scene(self):
        rnd = self.rnd
        n = rnd.choice([1, 2, 3, 4, 8])
        kind = rnd.choice(['I', 'QU', 'IQU'])
        kw = {}
        if rnd.random() < 0.7:
            kw['kind'] = rnd.choice([kind, kind.lower()])
        else:
            kind = 'I'
        nest = rnd.random() < 0.5
        if nest or rnd.random() < 0.5:
            kw['nest'] = nest
        convention = 'zenith,azimuth'
        if rnd.random() < 0.6:
            convention = kw['convention'] = rnd.choice(CONVENTIONS[:4])
        cls = rnd.choice([SceneHealpix, SceneHealpixCMB])
        if rnd.random() < 0.3:
            kw['extra'] = 7

        def f():
            s = cls(rnd.choice([n, float(n), np.int32(n)]), **kw)
            t, w = s.topixel, s.toworld
            return {'kind': s.kind, 'npixel': num(s.npixel), 'nside': num(s.nside), 'shape': [num(_) for _ in s.shape],
                    'layout': [num(_) for _ in s.shape[:s.ndim]], 'zeros': [num(_) for _ in s.zeros().shape],
                    'solid': near(s.solid_angle * s.npixel / np.pi), 'nest': bool(s.nest),
                    'convention': s.convention, 'len': num(len(s)),
                    'maps': [[num(t.nside), bool(t.nest), t.convention], [num(w.nside), bool(w.nest), w.convention]],
                    'kept': getattr(s, 'extra', 0) == kw.get('extra', 0)}
        st, out = call(f)
        e = {'op': 'scene', 'n': n, 'k': kind, 'ne': nest, 'c': convention}
        if st == 'ok':
            e.update(out)
        self.add(e, st, out)

    def units(self):
        rnd = self.rnd
        n = rnd.choice([1, 2, 4, 16, 256])
        absolute = rnd.random() < 0.5
        x = [rnd.randint(16, 200) for _ in range(rnd.randint(1, 3))]
        temperature = rnd.choice([None, 2.7255, 1., 5.])
        t0 = 2.7255 if temperature is None else temperature
        kw = {} if temperature is None else {'temperature': temperature}
        if absolute or rnd.random() < 0.5:
            kw['absolute'] = absolute
        factors = [rnd.randint(-9, 9) for _ in x]

        def f():
            s = SceneHealpixCMB(n, **kw)
            nu = x[0] / 32 * K * t0 / H
            a = 2 * (4 * math.pi / (12 * n * n)) * H * nu**3 / C**2
            op = s.get_unit_conversion_operator(nu)
            if absolute:    # temperatures such that h nu / k T has the values x
                return op(np.array([t0 * x[0] / _ for _ in x])) / a
            return op(np.array(factors, float)) / (1e-6 * a / t0)
        st, out = call(f)
        e = {'op': 'units', 'absolute': absolute, 'x': x, 'factors': factors}
        if st == 'ok':
            e.update(obs=scaled(out, 8192), shaped=np.shape(out) == (len(x),), kept=True)
        self.add(e, st, out)

    def refusals(self):
        rnd = self.rnd
        v = rnd.choice([np.zeros(5), np.zeros((3, 4)), np.zeros(())])
        name, f = rnd.choice([
            ('convention', lambda: Spherical2HealpixOperator(4, rnd.choice(['elevation', 'zenith;azimuth', '', 'cartesian']))),
            ('convention', lambda: Healpix2SphericalOperator(4, 'zenith')),
            ('convention', lambda: SceneHealpix(4, convention='azimuth')),
            ('coordinates', lambda: Spherical2HealpixOperator(4, 'zenith,azimuth')(v)),
            ('coordinates', lambda: Cartesian2HealpixOperator(4)(v)),
            ('coordinates', lambda: Healpix2CartesianOperator(4)(np.zeros(2), np.zeros((2, 2)))),
            ('coordinates', lambda: Healpix2SphericalOperator(4, 'azimuth,zenith')(np.zeros(2), np.zeros((2, 3)))),
            ('kind', lambda: SceneHealpix(4, rnd.choice(['U', 'Q', 'IU', 'QUI', 'V', '']))),
            ('kind', lambda: SceneHealpixCMB(4, 'IQUV')),
            ('width', lambda: HealpixConvolutionGaussianOperator()),
            ('width', lambda: HealpixConvolutionGaussianOperator(fwhm=0.1, sigma=0.1)),
            ('width', lambda: HealpixConvolutionGaussianOperator(fwhm=0, sigma=0)),
            ('width', lambda: HealpixConvolutionGaussianOperator(fwhm=-0.1)),
            ('width', lambda: HealpixConvolutionGaussianOperator(sigma=-0.1)),
            ('pixels', lambda: HealpixConvolutionGaussianOperator(sigma=1)(np.zeros(rnd.choice([13, 24, 47, 100])))),
            ('pixels', lambda: HealpixConvolutionGaussianOperator(sigma=1)(np.zeros((12, 2, 2)))),
        ])
        st, out = call(f)
        self.add({'op': 'refused', 'name': name}, st, out)
        st, out = call(rnd.choice([lambda: SceneHealpix(4, 3), lambda: Spherical2HealpixOperator(4, 3),
                                   lambda: Healpix2SphericalOperator(4, None), lambda: SceneHealpixCMB(4, None)]))
        self.add({'op': 'mistyped', 'name': 'type'}, st, out)


def history(rnd):
    r = Recorder(rnd)
    if rnd.random() < 0.15:
        r.laplacian()
        return r.events
    for _ in range(rnd.randint(2, 4)):
        rnd.choice([r.locate, r.locate, r.locate, r.center, r.center, r.roundtrip, r.composed, r.smooth, r.scene, r.units,
                    r.refusals])()
    return r.events
