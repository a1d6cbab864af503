"""Black bodies, distortions, rotations of the instrument plane and samplings (Spectra.tla)."""
import math

import numpy as np
from enc import NAN, call, near, num
from scipy.constants import c as C
from scipy.constants import h as H
from scipy.constants import k as K

from pyoperators import IdentityOperator
from pysimulators import BlackBodyOperator, RotationBoresightEquatorialOperator
from pysimulators.packedtables import SamplingSpherical
from pysimulators.wcsutils import DistortionOperator

T0 = 20.
NU = T0 * K / H / 32       # unit of frequency: h nu / (k T0) = 1 / 32


def scaled(x, scale):
    return [NAN if v != v else int(round(max(-2e9, min(2e9, v * scale)))) for v in np.asarray(x, float).ravel().tolist()]


def blackbody(T, k, k0, wave=False, wave0=False, **kw):
    """Frequencies in units of NU, or the equivalent wavelengths."""
    kw['wavelength' if wave else 'frequency'] = C / (k * NU) if wave else k * NU
    kw['wavelength0' if wave0 else 'frequency0'] = C / (k0 * NU) if wave0 else k0 * NU
    return BlackBodyOperator(T, **kw)


def flux(k, k0, m, beta):
    """Observed ratio of the fluxes."""
    return float(blackbody(T0 / m, k, k0, beta=beta)(1.))


def pointing(rows):
    """Pointing from (ra, dec, c, s) in degrees and fifths."""
    p = np.recarray(len(rows), [('ra', float), ('dec', float), ('pa', float)])
    for i, (ra, dec, c, s) in enumerate(rows):
        p[i] = ra, dec, math.degrees(math.atan2(s, c))
    return p


def offsets(out, ra, dec):
    """Offsets in fifths of an arc second along the parallels and the meridians."""
    return [near((out[0] - ra) * math.cos(math.radians(out[1])), 18000, 1e-3), near(out[1] - dec, 18000, 1e-3)]


def rotate(d, x, y):
    out = RotationBoresightEquatorialOperator(pointing([(30, 50, *d)]))(np.array([float(x), y]))
    return offsets(out.ravel().tolist(), 30, 50)


class Recorder:
    def __init__(self, rnd):
        self.rnd = rnd
        self.events = []

    def add(self, e, st, out=None):
        e['st'] = st
        if st != 'ok':
            e['_msg'] = str(out)
        self.events.append(e)

    def frequency(self):
        return self.rnd.choice([8, 10, 12, 16, 20, 24])

    def fluxes(self):
        rnd = self.rnd
        n = rnd.choice([0, 1, 2, 3])       # 0: scalar temperature
        k, k0 = self.frequency(), self.frequency()
        m = [rnd.randint(1, 4) for _ in range(max(n, 1))]
        many = n > 0 and rnd.random() < 0.4
        beta = [rnd.randint(-1, 2) for _ in m] if many else [rnd.choice([0, 0, 1, 2, -1])] * len(m)
        kw = {}
        if many:
            kw['beta'] = rnd.choice([np.array, list, lambda x: np.array(x, float)])(beta)
        elif beta[0] or rnd.random() < 0.5:
            kw['beta'] = beta[0]
        v = [rnd.randint(-5, 5) for _ in range(n or rnd.randint(1, 4))]
        if n == 0:
            m, beta = m * len(v), beta * len(v)
        T = T0 / m[0] if n == 0 else rnd.choice([np.array, list])([T0 / _ for _ in m])
        x = np.array(v, float)
        x0 = x.copy()

        def f():
            op = blackbody(T, k, k0, rnd.random() < 0.5, rnd.random() < 0.5, **kw)
            if rnd.random() < 0.3:
                op = op.T
            return op(x), isinstance(op, IdentityOperator)
        if k == k0:      # equal wavelengths and frequencies are the same numbers, but not after their conversion
            def f():
                w = rnd.random() < 0.5
                op = blackbody(T, k, k0, w, w, **kw)
                return op(x), isinstance(op, IdentityOperator)
        st, out = call(f)
        e = {'op': 'flux', 'k': k, 'k0': k0, 'm': m, 'beta': beta, 'v': v}
        if st == 'ok':
            e.update(obs=scaled(out[0], 4096), shaped=np.shape(out[0]) == (len(v),), kept=bool(np.all(x == x0)),
                     identity=bool(out[1]))
        self.add(e, st, out)

    def laws(self):
        rnd = self.rnd
        k, k1, k0 = self.frequency(), self.frequency(), self.frequency()
        T = np.array([T0 / rnd.randint(1, 4) for _ in range(3)]) if rnd.random() < 0.5 else T0 / rnd.randint(1, 4)
        kw = {'beta': rnd.choice([0, 1.5, 2])}
        x = np.array([1., 1, 1])

        def f():
            a = blackbody(T, k, k0, **kw)(x)
            b = (blackbody(T, k, k1, **kw) * blackbody(T, k1, k0, **kw))(x)
            c = blackbody(T, k, k0, **kw)(blackbody(T, k0, k, **kw)(x))
            d = blackbody(T, k, k0, rnd.random() < 0.5, rnd.random() < 0.5, **kw)(x)
            return [near(np.max(np.abs(q - 1)) + 1, 1000000) for q in (b / a, c, d / a)], a.shape
        st, out = call(f)
        e = {'op': 'laws', '_T': str(T), '_k': [k, k1, k0], '_kw': str(kw)}
        if st == 'ok':
            e.update(dict(zip(['chain', 'back', 'wave'], out[0])), shaped=out[1] == (3,), kept=True)
        self.add(e, st, out)

    def distortion(self):
        rnd = self.rnd
        n = rnd.choice([2, 3])
        while True:
            t = [rnd.randint(-3, 3) for _ in range(6)]
            if t[0] * t[3] != t[1] * t[2]:
                break
        grid = [(i, j) for i in range(n + 1) for j in range(n + 1)]
        rnd.shuffle(grid)
        xin = np.array(grid, float)
        xout = np.array([(t[0] * x + t[1] * y + t[4], t[2] * x + t[3] * y + t[5]) for x, y in grid], float)
        shape = rnd.choice([(), (1,), (3,), (2, 2)])
        p = []
        for _ in range(int(np.prod(shape))):
            q = [rnd.randint(1, 16 * n - 1), rnd.randint(1, 16 * n - 1)]
            if rnd.random() < 0.2:
                q[rnd.randint(0, 1)] = rnd.choice([-1, -20, 16 * n + 1, 16 * n + 30])
            p.append(q)
        x = (np.array(p, float) / 16).reshape(shape + (2,))

        def f():
            op = DistortionOperator(*((xin, xout) if rnd.random() < 0.5 else (xin.tolist(), xout.tolist())))
            out = op(x)
            return out, op.I(out)
        st, out = call(f)
        e = {'op': 'distortion', 'n': n, 't': t, 'p': p}
        if st == 'ok':
            o = scaled(out[0], 1024)
            b = scaled(out[1], 1024)
            e.update(obs=[o[i:i + 2] for i in range(0, len(o), 2)], back=[b[i:i + 2] for i in range(0, len(b), 2)],
                     shaped=out[0].shape == x.shape, kept=bool(np.all(x.ravel() * 16 == np.ravel(p))))
        self.add(e, st, out)

    def rotation(self):
        rnd = self.rnd
        n = rnd.randint(1, 3)
        d = [rnd.choice([(5, 0), (0, 5), (-5, 0), (0, -5), (3, 4), (4, 3), (-3, 4), (3, -4), (-4, -3)]) for _ in range(n)]
        rows = [(rnd.randint(1, 359), rnd.randint(-80, 80), *_) for _ in d]
        shape = rnd.choice([(), (1,), (3,), (2, 2)])
        p = [[rnd.randint(-100, 100), rnd.randint(-100, 100)] for _ in range(int(np.prod(shape)))]
        x = np.array(p, float).reshape(shape + (2,))
        st, out = call(lambda: RotationBoresightEquatorialOperator(pointing(rows))(x))
        e = {'op': 'rotation', 'd': d, 'p': p, '_rows': rows}
        if st == 'ok':
            o = out.reshape((n, len(p), 2)).tolist()
            e.update(obs=[[offsets(q, r[0], r[1]) for q in row] for row, r in zip(o, rows)],
                     shaped=out.shape == (n,) + x.shape, kept=bool(np.all(x.ravel() == np.ravel(p))))
        self.add(e, st, out)

    def sampling(self):
        rnd = self.rnd
        n = rnd.randint(1, 5)
        names = rnd.choice([('precession', 'nutation', 'intrinsic_rotation'), ('a', 'b', 'c')])
        kw = {} if names[0] == 'precession' and rnd.random() < 0.7 else {'names': names}
        a = [[rnd.randint(0, 9) for _ in range(rnd.choice([1, n]))] for _ in range(3)]
        how = rnd.choice(['args', 'args', 'keywords', 'number'])
        given = rnd.choice([2, 3])
        if given == 2:
            a[2] = [0]
        if how != 'number':
            n = max(len(_) for _ in a)
        values = [_[0] if len(_) == 1 and (n > 1 or rnd.random() < 0.5) else rnd.choice([list, np.array])(_) for _ in a][:given]

        def f():
            if how == 'args':
                ptg = SamplingSpherical(*values, **kw)
            elif how == 'keywords':
                ptg = SamplingSpherical(**dict(zip(names, values)), **kw)
            else:
                ptg = SamplingSpherical(n, **dict(zip(names, values)), **kw)
            obs = [np.broadcast_to(getattr(ptg, _), (len(ptg),)) for _ in names]
            return len(ptg), [[num(_) for _ in o] for o in obs], [[num(_) for _ in row] for row in ptg.spherical.tolist()]
        st, out = call(f)
        e = {'op': 'sampling', 'n': n, 'a': a, '_how': how}
        if st == 'ok':
            e.update(len=num(out[0]), obs=out[1], spherical=out[2], shaped=True, kept=True)
        self.add(e, st, out)

    def refusals(self):
        rnd = self.rnd
        z = np.zeros((4, 2))
        name, f = rnd.choice([
            ('spectrum', lambda: BlackBodyOperator(15, frequency0=1e12)),
            ('spectrum', lambda: BlackBodyOperator(15, wavelength=1e-4)),
            ('spectrum', lambda: BlackBodyOperator(15, frequency=1e12, wavelength=1e-4, frequency0=1e12)),
            ('spectrum', lambda: BlackBodyOperator(15, frequency=1e12, frequency0=1e12, wavelength0=1e-4)),
            ('plane', lambda: DistortionOperator(np.zeros((4, 3)), np.zeros((4, 3)))),
            ('plane', lambda: DistortionOperator(z, np.zeros((5, 2)))),
            ('angles', lambda: SamplingSpherical(1, 2, 3, 4)),
            ('angles', lambda: SamplingSpherical(precession=3)),
            ('angles', lambda: SamplingSpherical(nutation=[3, 4])),
            ('angles', lambda: SamplingSpherical(2, nutation=[3, 4])),
            ('angles', lambda: SamplingSpherical([3, 4])),
            ('angles', lambda: SamplingSpherical(np.zeros((2, 2)), 0)),
            ('angles', lambda: SamplingSpherical(3, names=('a', 'b'))),
            ('angles', lambda: SamplingSpherical([1, 2], [1, 2, 3])),
        ])
        st, out = call(f)
        self.add({'op': 'refused', 'name': name}, st, out)
        name, f = rnd.choice([
            ('frequency', lambda: BlackBodyOperator(15, frequency=[1e12, 2e12], frequency0=1e12)),
            ('frequency', lambda: BlackBodyOperator(15, wavelength=[1e-4], frequency0=1e12)),
            ('reference', lambda: BlackBodyOperator(15, frequency=1e12, frequency0=[1e12, 2e12])),
            ('reference', lambda: BlackBodyOperator(15, frequency=1e12, wavelength0=[1e-4])),
            ('pointing', lambda: RotationBoresightEquatorialOperator(np.recarray(3, [('ra', float), ('dec', float)]))),
            ('pointing', lambda: RotationBoresightEquatorialOperator(np.recarray(3, [('pa', float), ('dec', float)]))),
        ])
        st, out = call(f)
        self.add({'op': 'mistyped', 'name': name}, st, out)


def history(rnd):
    r = Recorder(rnd)
    for _ in range(rnd.randint(2, 4)):
        rnd.choice([r.fluxes, r.fluxes, r.laws, r.distortion, r.rotation, r.rotation, r.sampling, r.refusals])()
    return r.events
