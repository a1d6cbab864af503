"""Distribution of observations, detectors and headers over processes."""
import os

import numpy as np
from astropy.io import fits
from enc import near
from fakecomm import spmd
from pysimulators import mpiutils

NONE = 99999
SCALE = 2


def statuses(res):
    return ['ok' if s == 'ok' else 'exc:' + type(v).__name__ for s, v in res]


def distribute(mask, obs, nth, size, how, seed=0):
    """Event of the distribution of the detectors which are not masked."""
    os.environ['OMP_NUM_THREADS'] = str(nth)
    mask0 = mask.copy()
    obs0 = list(obs)

    class Comm:         # no communication is needed when the rank is given
        pass

    def work(comm):
        if how == 'rank':
            c = Comm()
            c.size = comm.size
            return mpiutils.distribute_observation(mask, obs, rank=comm.rank, comm=c)
        return mpiutils.distribute_observation(mask, obs, comm=comm)

    try:
        res = spmd(size, work, seed)
    finally:
        os.environ['OMP_NUM_THREADS'] = '4'
    parts, shapes = [], True
    for s, v in res:
        if s != 'ok':
            parts.append([[], []])
            continue
        m, o = v
        m = np.asarray(m)
        shapes = shapes and m.shape == mask.shape and m.dtype == bool
        parts.append([[int(_) for _ in o], np.flatnonzero(~m.ravel()).tolist()])
    return {'op': 'distribute', 'sts': statuses(res), 'obs': [int(_) for _ in obs0],
            'dets': np.flatnonzero(~mask0.ravel()).tolist(), 'nth': nth, 'size': size, 'parts': parts,
            'intact': bool(np.array_equal(mask, mask0) and [int(_) for _ in obs] == obs0), 'shapes': bool(shapes)}


def header(hd):
    """A FITS header; tag: variation of the other cards."""
    h = fits.Header()
    h['SIMPLE'] = True
    h['NAXIS'] = len(hd['naxis'])
    for i, n in enumerate(hd['naxis']):
        h[f'NAXIS{i + 1}'] = n
    for i, c in enumerate(hd['crpix']):
        if c != NONE:
            h[f'CRPIX{i + 1}'] = c / SCALE
    tag = hd.get('tag', 0)
    if tag < 0:
        return h
    for i in range(len(hd['naxis'])):
        h[f'CRVAL{i + 1}'] = 10.0 * (i + 1) + (1 if tag == 1 + i else 0)
        h[f'CTYPE{i + 1}'] = ('RA---TAN', 'DEC--TAN', 'WAVE')[i] if tag != 3 + i else ('GLON-TAN', 'GLAT-TAN', 'FREQ')[i]
        h[f'CDELT{i + 1}'] = 0.5 if tag != 5 + i else 0.25
    h['OBJECT'] = 'x'
    return h


def observe(h, ref):
    """The header h, observed; ref: the header that it comes from."""
    try:
        n = h['NAXIS']
        naxis = [near(h.get(f'NAXIS{i + 1}')) for i in range(n)]
        crpix = [NONE if f'CRPIX{i + 1}' not in h else near(h[f'CRPIX{i + 1}'], SCALE) for i in range(n)]
    except Exception:
        return {'naxis': [-1], 'crpix': [-1], 'rest': False}
    other = lambda x: [(c.keyword, c.value) for c in x.cards if c.keyword[:5] not in ('NAXIS', 'CRPIX')]
    return {'naxis': naxis, 'crpix': crpix, 'rest': other(h) == other(ref) and h['NAXIS'] == ref['NAXIS']}


def model(hd):
    return {'naxis': hd['naxis'], 'crpix': hd['crpix'], 'scale': SCALE, 'tag': hd.get('tag', 0)}


def apply(func, headers, seed=0):
    """(statuses, observed headers, inputs unchanged): headers[r] is given to process r."""
    refs = [h.copy() for h in headers]
    res = spmd(len(headers), lambda comm: func(headers[comm.rank], comm=comm), seed)
    obs = [observe(v, refs[r]) if s == 'ok' else {'naxis': [], 'crpix': [], 'rest': False}
           for r, (s, v) in enumerate(res)]
    new = [v if s == 'ok' else None for s, v in res]
    intact = all(h.tostring() == r.tostring() for h, r in zip(headers, refs))
    return statuses(res), obs, bool(intact), new


class Recorder:
    def __init__(self, rnd):
        self.rnd = rnd
        self.events = []

    def distribute(self):
        rnd = self.rnd
        shape = rnd.choice([(rnd.randint(0, 9),), (rnd.randint(1, 30),), (2, 3), (4, 4), (3, 1, 2), (0,)])
        n = int(np.prod(shape))
        p = rnd.choice([0, 0.3, 0.7, 1])
        mask = np.array([rnd.random() < p for _ in range(n)], bool).reshape(shape)
        if rnd.random() < 0.2:
            mask = np.asfortranarray(mask)
        if rnd.random() < 0.2 and mask.ndim == 1:
            mask = np.repeat(mask, 2)[::2]
        obs = [10 * k for k in range(rnd.choice([0, 1, 2, 3, 4, 5, 7, 12, 20]))]
        kind = rnd.randrange(3)
        obs = obs if kind == 0 else tuple(obs) if kind == 1 else np.array(obs, int)
        size = rnd.choice([1, 2, 3, 4, 5, 6, 8, 12, 16])
        how = 'rank' if rnd.random() < 0.6 and size > 1 else 'comm'
        self.events.append(distribute(mask, obs, rnd.choice([1, 1, 2, 3, 4, 8]), size, how, rnd.randrange(3)))

    def globalhd(self):
        rnd = self.rnd
        d = rnd.randint(1, 3)
        return {'naxis': [rnd.randint(1, 9) for _ in range(d)],
                'crpix': [rnd.choice([NONE, rnd.randint(-9, 30)]) if rnd.random() < 0.2 else rnd.randint(-9, 30)
                          for _ in range(d)], 'tag': 0}

    def headers(self):
        """Scattered, gathered, gathered again."""
        rnd = self.rnd
        size = rnd.choice([1, 2, 2, 3, 4, 5, 7])
        seed = rnd.randrange(3)
        g = self.globalhd()
        self.events.append({'op': 'header', 'hs': [model(g)]})
        hs = [header(g) for _ in range(size)]
        sts, obs, intact, hs = apply(mpiutils.scatter_fitsheader, hs, seed)
        self.events.append({'op': 'scatter', 'size': size, 'sts': sts, 'hs': obs, 'intact': intact})
        if any(s != 'ok' for s in sts):
            return
        for _ in range(rnd.randint(1, 2)):
            full = NONE not in g['crpix']
            op = rnd.choice(['gather', 'if_needed']) if full and _ == 0 else 'if_needed' if full else 'gather'
            func = mpiutils.gather_fitsheader if op == 'gather' else mpiutils.gather_fitsheader_if_needed
            if op == 'gather' and _ > 0:
                return
            sts, obs, intact, new = apply(func, hs, seed)
            self.events.append({'op': op, 'size': size, 'sts': sts, 'hs': obs, 'intact': intact, 'nowcs': False})
            if any(s != 'ok' for s in sts):
                return
            hs = new

    def locals(self):
        """Headers which may not be those of the parts of an array."""
        rnd = self.rnd
        size = rnd.choice([1, 2, 3, 4])
        g = self.globalhd()
        g['crpix'] = [rnd.randint(-9, 30) for _ in g['crpix']]
        hds = [dict(g, naxis=list(g['naxis']), crpix=list(g['crpix'])) for _ in range(size)]
        d = len(g['naxis'])
        n = sum(h['naxis'][-1] for h in hds)
        nowcs = False
        kind = rnd.choice(['same', 'parts', 'naxis', 'crpix', 'tag', 'tag', 'tag', 'nowcs'])
        if kind != 'same' and rnd.random() < 0.7 or kind == 'parts':
            lens = [n // size + (k < n % size) for k in range(size)]
            for k, h in enumerate(hds):
                h['naxis'][-1] = lens[k]
                h['crpix'][-1] -= SCALE * sum(lens[:k])
        r = rnd.randrange(size)
        if kind == 'naxis' and d > 1:
            hds[r]['naxis'][rnd.randrange(d - 1)] += 1
        elif kind == 'crpix' and d > 1:
            hds[r]['crpix'][rnd.randrange(d - 1)] += 1
        elif kind == 'tag':
            hds[r]['tag'] = rnd.choice([k for k in range(1, 7) if (k - 1) % 2 < d])
        elif kind == 'nowcs':
            nowcs = True
            for h in hds:
                h['tag'] = -1
        self.events.append({'op': 'header', 'hs': [model(h) for h in hds]})
        sts, obs, intact, _ = apply(mpiutils.gather_fitsheader_if_needed, [header(h) for h in hds], rnd.randrange(3))
        self.events.append({'op': 'if_needed', 'size': size, 'sts': sts, 'hs': obs, 'intact': intact, 'nowcs': nowcs})

    def bad(self):
        rnd = self.rnd
        h = fits.Header()
        if rnd.random() < 0.5:
            h['NAXIS'] = 0
        func = rnd.choice([mpiutils.scatter_fitsheader, mpiutils.gather_fitsheader,
                           mpiutils.gather_fitsheader_if_needed])
        sts, *_ = apply(func, [h.copy() for _ in range(rnd.randint(1, 3))])
        self.events.append({'op': 'bad', 'sts': sts})
