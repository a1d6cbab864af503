"""Noise of instruments (Noise.tla)."""
import multiprocessing
import operator

multiprocessing.cpu_count = lambda: 1   # no threads in the transforms of the recording processes

import numpy as np
from enc import call, near
from pysimulators import Instrument, PackedTable, Sampling
from pysimulators.noises import _fold_psd, _gaussian_psd_1f, _unfold_psd

ONE = 4096


def q(x):
    return x[0] / x[1]


def fixed(x, scale=ONE):
    return [[near(v, scale, 0.51) for v in r] for r in np.atleast_2d(x).tolist()]


def spectrum(model, n, twosided):
    """Explicit spectrum of a 'power' model: the values which are not used are arbitrary."""
    bw, m, lev = q(model['bw']), model['m'], q(model['level'])
    i = np.arange(1, n)
    x = i / m
    p = lev * np.where(i <= m, x ** model['s1'], x ** model['s2'])
    p = np.concatenate([[7.0], p, [0.3]])
    if twosided:
        p = np.concatenate([p[:1], p[1:-1] / 2, p[-1:], p[-2:0:-1] / 2])
    return p, bw


def keywords(models, n, nd, period, rnd):
    """Arguments of the instrument's methods for the models of the detectors."""
    m = models[0]
    if m['kind'] == 'power':
        two = rnd.random() < 0.4
        knots = m['_knots']
        ps = [spectrum(_, knots, two) for _ in models]
        psd = ps[0][0] if len(ps) == 1 else np.array([_[0] for _ in ps])
        kw = {'psd': psd, 'bandwidth': ps[0][1]}
        if len(ps) == 1 and rnd.random() < 0.3:
            kw['psd'] = list(psd)
        if two or rnd.random() < 0.3:
            kw['twosided'] = two
        return kw
    sigma = [np.sqrt(q(_['sigma2'])) for _ in models]
    sigma = sigma[0] if len(sigma) == 1 else np.array(sigma)
    kw = {'sigma': sigma} if rnd.random() < 0.7 else {'nep': sigma * np.sqrt(2 * period)}
    if m['fknee'][0] or rnd.random() < 0.3:
        kw['fknee'] = q(m['fknee'])
        if m['slope'] != 1 or rnd.random() < 0.5:
            kw['fslope'] = m['slope']
    return kw


class Recorder:
    def __init__(self, rnd):
        self.rnd = rnd
        self.events = []

    def instrument(self, nd):
        rnd = self.rnd
        u = rnd.random()
        if u < 0.5:
            t = PackedTable(nd)
        elif u < 0.75:
            t = PackedTable((nd + 2,))[[i for i in range(nd + 2)][:nd]]
        else:
            t = PackedTable((2, nd + 1))[1:nd + 1]
        return Instrument(t, 'instrument') if rnd.random() < 0.5 else Instrument('instrument', t)

    def models(self, nd, n, fs, kind=None):
        rnd = self.rnd
        k = 1 if rnd.random() < 0.5 or nd == 1 else nd
        kind = kind or rnd.choice(['knee', 'white', 'power', 'power'])
        if kind == 'power' and n % 2:
            kind = 'knee'
        if kind == 'white':
            return [{'kind': 'knee', 'sigma2': rnd.choice([[1, 1], [4, 1], [1, 4], [9, 4]]), 'fknee': [0, 1], 'slope': 1}
                    for _ in range(k)]
        if kind == 'knee':
            # the knee is shared by the detectors
            f = [rnd.choice([1, 2, 3]) * fs[0], rnd.choice([2, 4, 8, 3]) * fs[1]]
            s = rnd.choice([1, 1, 2])
            return [{'kind': 'knee', 'sigma2': rnd.choice([[1, 1], [2, 1], [1, 4]]), 'fknee': f, 'slope': s} for _ in range(k)]
        bw = [fs[0] * rnd.choice([1, 1, 2]), fs[1] * rnd.choice([2, 4, 8])]
        m = rnd.choice([2, 3])
        knots = m + rnd.randint(2, 4)
        return [{'kind': 'power', 'level': [rnd.choice([1, 2, 4]) * fs[1], fs[0]], 'bw': bw, 'm': m,
                 's1': rnd.choice([0, -1, -1, 1]), 's2': rnd.choice([0, 0, 1, -1]), '_knots': knots} for _ in range(k)]

    def setting(self, sizes):
        rnd = self.rnd
        nd, n = rnd.randint(1, 3), rnd.choice(sizes)
        fs = rnd.choice([[1, 1], [2, 1], [1, 2], [4, 1]])
        return nd, n, fs, fs[1] / fs[0]

    def add(self, e, st, out=None):
        e['st'] = st
        if st != 'ok':
            e['_msg'] = str(out)
        self.events.append(e)

    def fold(self):
        rnd = self.rnd
        nd, n = rnd.randint(1, 3), 2 * rnd.randint(1, 6)
        half = [[rnd.randint(0, 9) for _ in range(n // 2 + 1)] for _ in range(nd)]
        p = [h + h[-2:0:-1] for h in half]
        flat = nd == 1 and rnd.random() < 0.5
        x = p[0] if flat else p
        st, y = call(_fold_psd, np.array(x) if rnd.random() < 0.5 else x)
        self.add({'op': 'fold', 'p': p, 'obs': fixed(y, 1) if st == 'ok' else []}, st, y)
        if st == 'ok':
            f = [[int(v) for v in r] for r in np.atleast_2d(y).tolist()]
            st, y = call(_unfold_psd, y)
            self.add({'op': 'unfold', 'p': f, 'obs': fixed(y, 1) if st == 'ok' else []}, st, y)

    def shape(self):
        rnd = self.rnd
        nd, n, fs, period = self.setting([2, 4, 6, 8, 3, 5])
        models = self.models(nd, n, fs, rnd.choice(['knee', 'white']))
        two = n % 2 == 1 or rnd.random() < 0.5
        sigma = [np.sqrt(q(m['sigma2'])) for m in models]
        sigma = sigma[0] if len(models) == 1 and rnd.random() < 0.5 else sigma
        st, p = call(_gaussian_psd_1f, n, q(fs), sigma, q(models[0]['fknee']), models[0]['slope'], twosided=two)
        e = {'op': 'spectrum', 'models': models, 'n': n, 'fs': fs, 'twosided': two, 'obs': []}
        if st == 'ok':
            e['obs'] = fixed(p * q(fs))
        self.add(e, st, p)

    def invntt(self):
        rnd = self.rnd
        nd, n, fs, period = self.setting([1, 2, 2, 3, 4, 4, 5, 6, 7, 8, 12, 16])
        # the transforms are those of the next power of two
        models = self.models(nd, 2, fs)
        e = {'op': 'invntt', 'models': models, 'n': n, 'fs': fs, 'ncorr': rnd.randint(0, min(n - 1, 3)), 'obs': []}
        e['y'] = [[rnd.randint(-9, 9) for _ in range(n)] for _ in range(nd)]
        kw = keywords(models, n, nd, period, rnd)
        white = models[0]['kind'] == 'knee' and models[0]['fknee'][0] == 0
        if not white or rnd.random() < 0.5:
            kw['ncorr'] = e['ncorr']
        if white:
            e['ncorr'] = 0
        if rnd.random() < 0.3:
            kw['nthreads'] = rnd.randint(1, 2)
        if rnd.random() < 0.5:
            kw['fftw_flag'] = 'FFTW_ESTIMATE'

        def f():
            op = self.instrument(nd).get_invntt_operator(Sampling(n, period=period), **kw)
            if rnd.random() < 0.3:
                op = op.T
            return op(np.array(e['y'], float))

        st, y = call(f)
        if st == 'ok':
            e['obs'] = fixed(y)
        self.add(e, st, y)

    def draw(self):
        rnd = self.rnd
        nd, n, fs, period = self.setting([2, 3, 4, 4, 5, 6, 6, 8, 8])
        models = self.models(nd, n, fs)
        white = models[0]['kind'] == 'knee' and models[0]['fknee'][0] == 0
        kw = keywords(models, n, nd, period, rnd)
        instrument, sampling = self.instrument(nd), Sampling(n, period=period)
        seed = rnd.randrange(10**6)
        e = {'op': 'draw', 'models': models, 'n': n, 'fs': fs, 'white': white, 'obs': [], 'z': [], 'buffer': True}
        mode = rnd.choice(['', '', 'out', 'iadd', 'isub'])
        before = np.array([[rnd.randint(-5, 5) for _ in range(n)] for _ in range(nd)], float)
        out = before.copy()

        def f():
            np.random.seed(seed)
            z = instrument.get_noise(sampling, sigma=1, **({} if white else {'fknee': 1e-30}))
            np.random.seed(seed)
            if mode == '':
                return z, instrument.get_noise(sampling, **kw)
            if mode == 'out':
                return z, instrument.get_noise(sampling, out=out, **kw)
            return z, instrument.get_noise(sampling, out=out, operation=getattr(operator, mode), **kw)

        st, r = call(f)
        if st == 'ok':
            z, y = r
            if mode in ('out', 'iadd', 'isub'):
                e['buffer'] = y is out
            y = y - before if mode == 'iadd' else before - y if mode == 'isub' else y
            e['z'], e['obs'] = fixed(z, 1024), fixed(y, 1024)
        self.add(e, st, r)

    def statistics(self):
        rnd = self.rnd
        n, nd = 4096, 2
        period = rnd.choice([0.5, 1, 2.0])
        instrument, sampling = self.instrument(nd), Sampling(n, period=period)
        s = rnd.choice([0.5, 2.0])
        how = rnd.randrange(4)
        kw = {'psd': np.full(9, 2 * s**2 * period), 'bandwidth': 1 / period / 16}
        if how == 1:
            kw = {'psd': np.full(16, s**2 * period), 'bandwidth': 1 / period / 16, 'twosided': True}
        elif how == 2:
            kw = {'sigma': s, 'fknee': 1e-9}
        elif how == 3:
            kw = {'nep': s * np.sqrt(2 * period)}
        np.random.seed(rnd.randrange(10**6))
        st, y = call(lambda: instrument.get_noise(sampling, **kw))
        e = {'op': 'statistics', 'obs': [], 'corr': []}
        if st == 'ok':
            e['obs'] = [int(round(100 * v)) for v in (np.var(y, axis=1) / s**2).tolist()]
            e['corr'] = [int(round(100 * np.corrcoef(y)[0, 1])),
                         int(round(100 * np.corrcoef(y[0, 1:], y[0, :-1])[0, 1]))]
        self.add(e, st, y)

    def refused(self):
        rnd = self.rnd
        instrument, sampling = self.instrument(2), Sampling(4)
        cases = {
            'bandwidth': {'bandwidth': 1.0}, 'psd': {'psd': [1.0] * 5}, 'nothing': {}, 'fknee': {'fknee': 1},
        }
        name = rnd.choice(sorted(cases))
        kw = cases[name]
        f = rnd.choice([instrument.get_noise, instrument.get_invntt_operator])
        if rnd.random() < 0.2:
            name = 'operation'
            f, kw = instrument.get_noise, {'sigma': 1, 'operation': operator.iadd}
        st, out = call(lambda: f(sampling, **kw))
        self.add({'op': 'refused', 'name': 'refused-' + name}, st, out)


def history(rnd):
    rec = Recorder(rnd)
    for _ in range(rnd.randint(2, 6)):
        u = rnd.random()
        if u < 0.1:
            rec.fold()
        elif u < 0.2:
            rec.shape()
        elif u < 0.55:
            rec.invntt()
        elif u < 0.93:
            rec.draw()
        elif u < 0.96:
            rec.statistics()
        else:
            rec.refused()
    return rec.events
