"""Observations in the MADMAP1 format (MadMap.tla)."""
import contextlib
import io
import os
import shutil
import tempfile
from pathlib import Path

import astropy.io.fits as pyfits
import numpy as np
from enc import call, near, num
from pysimulators import Map, Tod
from pysimulators.interfaces.madmap1 import MadMap1Observation

SPECIAL = {1000001: np.nan, 1000002: np.inf, 1000003: -np.inf}
MISSING = {'none': None, 'nan': np.nan, 'inf': np.inf, 'zero': 0, 'seven': 7}


def rows(x, f=num):
    return [[f(v) for v in r] for r in np.asarray(x).tolist()]


class Files:
    """The files of an observation, in a scratch directory."""
    def __init__(self, f, rnd):
        self.f, self.rnd = f, rnd
        self.path = Path(tempfile.mkdtemp())
        self.name = rnd.choice(['inv', 'inv', 'inv+ntt', 'inv(1)', 'in.v', 'in v'])
        self.big = rnd.random() < 0.5
        self.write()

    def write(self):
        f, rnd = self.f, self.rnd
        e = '>' if self.big else '<'
        for j, flt in enumerate(f['filters']):
            head = np.array([flt['first'], flt['last'], len(flt['data']) - 1], e + 'i8').tobytes()
            (self.path / f'{self.name}.{flt["suffix"]}').write_bytes(head + np.array(flt['data'], e + 'f8').tobytes())
        for other in rnd.sample(['{}.txt', '{}.3.bak', '{}.', '{}', 'x{}.2', '{}2.1', '{}.1a'], 3):
            (self.path / other.format(self.name)).write_bytes(b'123')
        npps = f['npps']
        k = 1 + 2 * npps
        body = b''
        w = f['words']
        for i in range(0, len(w), k):
            r = w[i:i + k]
            body += np.array(r[:1], e + 'f8').tobytes()
            for v, p in zip(r[1::2], r[2::2]):
                body += np.array(v, e + 'f4').tobytes() + np.array(p, e + 'i4').tobytes()
            if len(r) % 2 == 0:
                body += b'\0' * 4
        n = sum(_['last'] - _['first'] + 1 for _ in f['filters'][:1])
        (self.path / 'tod').write_bytes(np.array([0, n, npps, f['npix']], e + 'i8').tobytes() + body)
        mask = np.array([SPECIAL.get(v, v) for v in f['mask']], f.get('_type', float))
        if f.get('_shape') and f['mask']:
            mask = mask.reshape(f['_shape'])
        self.ext = rnd.random() < 0.5
        if not f['mask']:
            hdus = [pyfits.PrimaryHDU(), pyfits.ImageHDU(name='cover')]
        elif self.ext:
            hdus = [pyfits.PrimaryHDU(np.zeros((2, 2))), pyfits.ImageHDU(np.ones(mask.shape), name='image'),
                    pyfits.ImageHDU(mask, name='cover')]
        else:
            hdus = [pyfits.PrimaryHDU(mask), pyfits.ImageHDU(np.zeros((2, 2)), name='cover')]
        pyfits.HDUList(hdus).writeto(self.path / 'mask.fits')

    def open(self):
        rnd = self.rnd
        if rnd.random() < 0.2:
            os.chdir(self.path)
            path = ''
        else:
            path = str(self.path) + '/'
        kw = {'bigendian': True} if self.big else {'bigendian': False} if rnd.random() < 0.3 else {}
        missing = MISSING[self.f['missing']]
        if missing is not None or rnd.random() < 0.3:
            kw['missing_value'] = missing
        mask = path + 'mask.fits' + ('[cover]' if self.ext else '')
        filters = path + self.name
        return MadMap1Observation('obs', self.f['nd'], path + 'tod', Path(filters) if rnd.random() < 0.2 else filters,
                                  mask, **kw)

    def close(self):
        os.chdir('/')
        shutil.rmtree(self.path)


def use(files, obs, e, rnd):
    with contextlib.redirect_stdout(io.StringIO()):
        return use_(files, obs, e, rnd)


def use_(files, obs, e, rnd):
    """Outcome of an operation: ('ok', result) or ('exc:...', message); the event is completed."""
    f = files.f
    op = e['op']
    if op == 'info':
        def get():
            h = obs.get_map_header()
            e.update(n=[int(_) for _ in obs.block.n], start=[int(_) for _ in obs.block.start],
                     stop=[int(_) for _ in obs.block.stop], detectors=len(obs.instrument), samples=len(obs.pointing),
                     npps=int(obs.info.npixels_per_sample), npix=int(obs.info.npixels_in_map),
                     ncorr=int(obs.info.ncorrelations), naxis1=int(h['NAXIS1']),
                     masked=[bool(_) for _ in obs.info.mapmask.ravel()],
                     filters=[rows(_) for _ in obs.get_filter_uncorrelated()])
            e['types'] = bool(obs.info.mapmask.shape == tuple(f.get('_shape') or (len(f['mask']),))
                              and h['NAXIS'] == 1 and not np.any(obs.pointing.removed) and obs.instrument.name == 'obs')
        return call(get)
    if op == 'tod':
        unit = rnd.choice([None, 'K', 'Jy/beam'])
        st, y = call(lambda: obs.get_tod(unit) if unit or rnd.random() < 0.5 else obs.get_tod())
        if st == 'ok':
            e['obs'] = rows(y)
            e['types'] = bool(type(y) is Tod and y.dtype == float and y.unit == {None: '', 'K': 'K'}.get(unit, 'Jy / beam'))
        return st, y
    if op == 'project':
        m = np.array(e['map'], float)
        if rnd.random() < 0.5:
            m = Map(m, unit='Jy', header=obs.get_map_header())
        how = rnd.randrange(3)
        st, H = call([obs.get_projection_operator, obs.get_operator, lambda: obs.get_operator(aslist=True)[0]][how])
        if st != 'ok':
            return st, H
        st, y = call(H, m)
        if st == 'ok':
            e['obs'] = rows(y)
            e['types'] = bool(type(y) is Tod and y.shape == (f['nd'], len(obs.pointing)))
        return st, y
    if op == 'back':
        y = np.array(e['tod'], float)
        if rnd.random() < 0.5:
            y = Tod(y)
        st, H = call(obs.get_projection_operator)
        if st != 'ok':
            return st, H
        st, m = call(H.T, y)
        if st == 'ok':
            e['obs'] = [num(v) for v in m.tolist()]
            e['types'] = bool(type(m) is Map and m.shape == (f['npix'],) and m.header['NAXIS1'] == f['npix'])
        return st, m
    nthreads = rnd.choice([None, 1, 2])
    flag = rnd.choice(['FFTW_MEASURE', 'FFTW_ESTIMATE'])
    st, N = call(lambda: obs.get_invntt_operator(fftw_flag=flag, nthreads=nthreads))
    if st != 'ok':
        return st, N
    if op == 'invntt':
        y = np.array(e['tod'], float)
        st, z = call(N, Tod(y) if rnd.random() < 0.3 else y)
        if st == 'ok':
            e['obs'] = rows(z, near)
            e['types'] = bool(z.shape == y.shape)
        return st, z
    st, H = call(obs.get_operator)
    if st != 'ok':
        return st, H
    st, m = call(H.T * N * H, np.array(e['map'], float))
    if st == 'ok':
        e['obs'] = [near(v) for v in m.tolist()]
        e['types'] = bool(m.shape == (f['npix'],))
    return st, m


def content(rnd):
    """Random files."""
    nd, nblocks, npps = rnd.randint(1, 3), rnd.choice([1, 2, 2, 3]), rnd.randint(1, 3)
    shape = rnd.choice([(rnd.randint(2, 6),), (rnd.randint(1, 3), rnd.randint(2, 4))])
    missing = rnd.choice(sorted(MISSING))
    values = {'none': [0, 0, 0, 1, 2, -1], 'nan': [0, 1, 3, 1000001, 1000002], 'zero': [0, 1, 2, 5], 'seven': [7, 0, 1, 8],
              'inf': [0, 1, 1000001, 1000002, 1000003]}[missing]
    mask = [rnd.choice(values) for _ in range(int(np.prod(shape)))]
    special = any(v in SPECIAL for v in mask)
    masked = {'none': lambda v: v != 0, 'nan': lambda v: v == 1000001, 'zero': lambda v: v == 0,
              'seven': lambda v: v == 7, 'inf': lambda v: v in (1000002, 1000003)}[missing]
    npix = sum(not masked(v) for v in mask)
    if npix == 0:
        return content(rnd)
    ns = [rnd.randint(1, 5) for _ in range(nblocks)]
    ncorr = rnd.randint(0, min(min(ns) - 1, 2))
    suffixes = sorted(rnd.sample(range(0, 25), nd * nblocks)) if rnd.random() < 0.5 else range(nd * nblocks)
    first = rnd.choice([0, 0, 100])
    filters = []
    k = iter(suffixes)
    for n in ns:
        for _ in range(nd):
            filters.append({'suffix': next(k), 'first': first, 'last': first + n - 1,
                            'data': [rnd.randint(3, 9)] + [rnd.randint(-2, 2) for _ in range(ncorr)]})
        first += n + rnd.choice([0, 3])
    words = []
    for _ in range(nd * sum(ns)):
        words.append(rnd.randint(-50, 50))
        for _ in range(npps):
            words += [rnd.randint(-3, 5), rnd.randrange(npix)]
    rnd.shuffle(filters)
    return {'nd': nd, 'npps': npps, 'npix': npix, 'filters': filters, 'mask': mask, 'missing': missing, 'words': words,
            '_shape': list(shape), '_type': rnd.choice(['f8', 'f4'] + ['i4', 'i2'] * (not special))}


def spoil(f, rnd):
    k = rnd.choice(['none', 'length', 'count', 'mask', 'npix', 'short', 'long', 'word'])
    if k == 'none':
        f['filters'] = []
    elif k == 'length':
        rnd.choice(f['filters'])['data'].append(1)
    elif k == 'count':
        f['filters'].pop()
    elif k == 'mask':
        f['mask'] = []
    elif k == 'npix':
        f['npix'] += rnd.choice([-1, 1])
    elif k == 'short':
        f['words'] = f['words'][:-(1 + 2 * f['npps'])]
    elif k == 'long':
        f['words'] = f['words'] + [0] * (1 + 2 * f['npps'])
    else:
        f['words'] = f['words'] + [1]
    return k


def history(rnd):
    f = content(rnd)
    if rnd.random() < 0.15:
        k = spoil(f, rnd)
    files = Files(f, rnd)
    try:
        st, obs = call(files.open)
        events = [{'op': 'open', 'files': f, 'st': st}]
        if st != 'ok':
            events[0]['_msg'] = str(obs)
            return events
        nd, n, npix = f['nd'], len(obs.pointing), f['npix']
        for _ in range(rnd.randint(2, 6)):
            op = rnd.choice(['info', 'tod', 'project', 'back', 'invntt', 'normal'])
            e = {'op': op, 'types': False, 'obs': []}
            if op in ('project', 'normal'):
                e['map'] = [rnd.randint(-9, 9) for _ in range(npix)]
            if op in ('back', 'invntt'):
                e['tod'] = [[rnd.randint(-9, 9) for _ in range(n)] for _ in range(nd)]
            st, out = use(files, obs, e, rnd)
            e['st'] = st
            if st != 'ok':
                e['_msg'] = str(out)
            events.append(e)
        return events
    finally:
        files.close()
