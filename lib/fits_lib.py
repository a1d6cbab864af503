"""FITS files: exact values as codes, independent writing and reading of the files."""
import os
import pickle
import warnings
from pathlib import Path

import numpy as np
from astropy.io import fits as pyfits
from data_lib import CLS, comp, unit
from enc import NONINT, call
from pysimulators import FitsArray, Map, Quantity, Tod
from pysimulators.wcsutils import create_fitsheader_for

warnings.simplefilter('ignore')
# values that are not small integers: code 100 + position
EXACT = [
    3.141592653589793, 1e300, 5e-324, float('nan'), float('inf'), float('-inf'), -0.0, 1 / 3,
    float(np.float32(np.pi)), 2.0**-149, float(np.finfo('f4').max), -1.0000001192092896,
    -32768, 32767, -2**31, 2**31 - 1, 2**62, -2**63, 255, 65535, 2**32 - 1, 2**64 - 1, 2.0**24 + 2,
]
ALLOWED = {'f8': [*range(12), 22], 'f4': [3, 4, 5, 6, 8, 9, 10, 11, 22], 'i2': [12, 13], 'i4': [12, 14, 15],
           'i8': [14, 16, 17], 'u1': [18], 'u2': [18, 19], 'u4': [19, 20], 'u8': [20, 21]}
DTYPES = ['f8', 'f8', 'f8', 'f4', 'f4', 'i2', 'i4', 'i8', 'u1', 'u2', 'u4', 'u8']


def decode(c):
    return EXACT[c - 100] if c >= 100 else c


def arr(codes, dt, shape):
    return np.array([decode(c) for c in codes], dt).reshape(shape)


def _code(x):
    if isinstance(x, (bool, np.bool_)):
        return int(x)
    if isinstance(x, float):
        if x != x:
            return 103
        if x == 0 and np.signbit(x):
            return 106
    for i, e in enumerate(EXACT):
        if e == x and i not in (3, 6):
            return 100 + i
    return int(x) if abs(x) < 100 and x == int(x) else NONINT


def codes(x):
    return [_code(_) for _ in np.asarray(x).ravel().tolist()]


def comp_codes(c, shape):
    if c is None:
        return []
    c = np.asarray(c)
    return [codes(c)] if c.shape == tuple(shape) else [[NONINT]]


def dtype(x):
    return np.dtype(x).str.lstrip('<>=|') if np.dtype(x).isnative else np.dtype(x).str


def reference(h):
    out = []
    while h is not None and f'CRPIX{len(out) + 1}' in h:
        x = h[f'CRPIX{len(out) + 1}']
        out.append(int(x) if x == int(x) else NONINT)
    return out


BAD = {'cls': '?', 'shape': [-1], 'v': [], 'cov': [], 'err': [], 'mask': [], 'hdr': -1, 'unit': -1,
       'org': '!', 'du': False, 'dt': '', 'crpix': [-99]}


def observe(x):
    st, d = call(_observe, x)
    return d if st == 'ok' else {**BAD, 'cls': type(x).__name__ + ' ' + str(d)[:60]}


def _observe(x):
    h = x._header
    du = x.derived_units
    return {'cls': type(x).__name__, 'shape': list(x.shape), 'v': codes(x.magnitude), 'dt': dtype(x.dtype),
            'cov': comp_codes(x.coverage, x.shape) if isinstance(x, Map) else [],
            'err': comp_codes(x.error, x.shape) if isinstance(x, Map) else [],
            'mask': comp(x.mask, x.shape) if isinstance(x, Tod) else [],
            'hdr': 0 if h is None else int(h.get('MARK', 0)), 'unit': unit(x),
            'org': str(x.origin) if isinstance(x, Map) else '',
            'du': 'ua' in du and float(du['ua'].magnitude) == 4 and du['ua'].unit == 'm',
            'crpix': reference(h)}


def unit_name(u):
    return '' if u == 0 else 'Jy' if u == 12 else 'Jy^%g' % (u / 12)


def build(r, how=0):
    kw = {'unit': unit_name(r['unit']), 'derived_units': {'ua': Quantity(4, 'm')} if r['du'] else None}
    for k, n in (('cov', 'coverage'), ('err', 'error')):
        if r[k]:
            kw[n] = arr(r[k][0], float, r['shape'])
    if r['mask']:
        kw['mask'] = np.array(r['mask'][0], bool).reshape(r['shape'])
    if r['cls'] == 'Map':
        kw['origin'] = r['org']
    v = arr(r['v'], r['dt'], r['shape'])
    if r['hdr'] or r['crpix']:
        h = create_fitsheader_for(v)
        if r['hdr']:
            h['MARK'] = r['hdr']
        ctype = [('RA---TAN', 'DEC--TAN'), ('GLON-CAR', 'GLAT-CAR'), None][how % 3]
        for i, c in enumerate(r['crpix']):
            h[f'CRPIX{i + 1}'] = float(c)
            if ctype:
                h[f'CTYPE{i + 1}'] = (ctype + ('FREQ', 'X'))[i]
        kw['header'] = h
    return CLS[r['cls']](v, dtype=r['dt'], **kw)


def raw(path):
    """The content of a file, read by Astropy."""
    if not os.path.exists(path):
        return []
    with open(path, 'rb') as f:
        content = f.read()
    if content not in _CACHE:
        if len(_CACHE) > 2000:
            _CACHE.clear()
        st, d = call(_raw, path)
        _CACHE[content] = d if st == 'ok' else {**BAD, 'org': '! ' + str(d)[:80]}
    return [dict(_CACHE[content])]


_CACHE = {}


def _raw(path):
    with pyfits.open(path, memmap=False, checksum=False) as hdus:
        if os.path.getsize(path) % 2880:
            raise ValueError('not a multiple of 2880')
        hdus.verify('exception')
        p = hdus[0]
        p.header.get('BITPIX')
        v = p.data
        if len({h.name.upper() for h in hdus}) != len(hdus):
            raise ValueError('repeated extensions')
        names = {h.name.upper(): h for h in hdus[1:]}
        if set(names) - {'COVERAGE', 'ERROR', 'MASK', 'DERIVED_UNITS'}:
            raise ValueError(f'extensions {set(names)}')
        if hdus.filename() and sum(h.size and -(-h.size // 2880) * 2880 for h in hdus) + sum(
                len(h.header.tostring()) for h in hdus) != os.path.getsize(path):
            raise ValueError('the file has extra or missing blocks')
        ext = {}
        for k, n in (('cov', 'COVERAGE'), ('err', 'ERROR'), ('mask', 'MASK')):
            ext[k] = comp_codes(names[n].data, v.shape) if n in names else []
        du = pickle.loads(names['DERIVED_UNITS'].data.tobytes()) if 'DERIVED_UNITS' in names else {}
        b = p.header.get('BUNIT', '')
        q = Quantity(1, b)
        return {'shape': list(v.shape), 'v': codes(v), 'dt': dtype(v.dtype.newbyteorder('=')),
                'unit': unit(q), 'hdr': int(p.header.get('MARK', 0)),
                'org': str(p.header.get('DISPORIG', '?')), **ext,
                'du': 'ua' in du and float(du['ua'].magnitude) == 4, 'crpix': reference(p.header)}


def write(path, f):
    """Write a file described by the specification, with Astropy."""
    v = arr(f['v'], f['dt'], f['shape'])
    p = pyfits.PrimaryHDU(v)
    if f['unit']:
        p.header['BUNIT'] = unit_name(f['unit'])
    if f['hdr']:
        p.header['MARK'] = f['hdr']
    if f['org'] != '?':
        p.header['DISPORIG'] = f['org']
    for i, c in enumerate(f['crpix']):
        p.header[f'CRPIX{i + 1}'] = float(c)
    hdus = [p]
    if f['du']:
        b = pickle.dumps({'ua': Quantity(4, 'm')})
        hdus.append(pyfits.ImageHDU(np.frombuffer(b, np.uint8), name='derived_units'))
    for k, n in (('cov', 'Coverage'), ('err', 'Error')):
        if f[k]:
            hdus.append(pyfits.ImageHDU(arr(f[k][0], float, f['shape']), name=n))
    if f['mask']:
        hdus.append(pyfits.ImageHDU(np.array(f['mask'][0], np.uint8).reshape(f['shape']), name='Mask'))
    pyfits.HDUList(hdus).writeto(path, overwrite=True)


def axes(x):
    h = x.header
    return [int(h[f'NAXIS{i}']) for i in range(int(h['NAXIS']), 0, -1)]


NOARGS = {'dt': '', 'newunit': False, 'unit': 0, 'org': '', 'cov': [], 'err': [], 'mask': []}


def random_array(rnd, shape=None, dtypes=DTYPES, mark=1):
    cls = rnd.choice(['Map', 'Map', 'Tod', 'Tod', 'FitsArray'])
    if shape is None:
        shape = rnd.choice([(4,), (5,), (1,), (2, 3), (3, 2), (5, 1), (2, 2), (4, 2), (3, 2, 2), (2, 1, 3), (0, 3),
                            (6,), (2, 5)])
    n = int(np.prod(shape))
    dt = rnd.choice(dtypes)

    def vals(dt, lo=0):
        return [100 + rnd.choice(ALLOWED[dt]) if rnd.random() < 0.3 else rnd.randint(lo, 99) for _ in range(n)]

    r = {'cls': cls, 'shape': list(shape), 'v': vals(dt, 0 if dt[0] == 'u' else -99), 'dt': dt,
         'cov': [], 'err': [], 'mask': [], 'hdr': rnd.choice([0, mark]), 'unit': rnd.choice([0, 12, 12, 24]),
         'org': '', 'du': rnd.random() < 0.3, 'crpix': []}
    if rnd.random() < 0.4:
        r['crpix'] = [rnd.randint(-3, 9) for _ in shape]
    if cls == 'Map':
        r['org'] = rnd.choice(['lower', 'upper'])
        if rnd.random() < 0.7:
            r['cov'] = [vals('f8')]
        if rnd.random() < 0.6:
            r['err'] = [vals('f8')]
    elif cls == 'Tod' and rnd.random() < 0.8:
        r['mask'] = [[int(rnd.random() < 0.4) for _ in range(n)]]
    return r


class Recorder:
    def __init__(self, rnd, folder, spmd):
        self.rnd = rnd
        self.spmd = spmd
        self.regs = []
        self.events = []
        self.paths = [os.path.join(folder, f'file{i}.fits') for i in range(2)]
        self.saved = [None, None]      # dtype of the content
        self.mark = 0
        for p in self.paths:
            if os.path.exists(p):
                os.remove(p)

    def emit(self, e, status, msg=''):
        e['status'] = status
        e['_msg'] = str(msg)[:200] if status != 'ok' else ''
        e['post'] = [observe(x) for x in self.regs]
        e['files'] = [raw(p) for p in self.paths]
        self.events.append(e)
        return status == 'ok' and all(isinstance(x, FitsArray) for x in self.regs)

    def put(self, dst, x):
        if dst == len(self.regs):
            self.regs.append(x)
        else:
            self.regs[dst] = x

    def dst(self):
        return self.rnd.randrange(min(len(self.regs) + 1, 3))

    def name(self, i):
        return self.rnd.choice([str, Path])(self.paths[i])

    def create(self):
        self.mark += 1
        r = random_array(self.rnd, mark=self.mark)
        dst = self.dst()
        st, x = call(build, r, self.rnd.randrange(3))
        if st == 'ok':
            self.put(dst, x)
        return self.emit({'op': 'create', 'dst': dst + 1, 'r': r}, st, x)

    def save(self):
        a, p = self.rnd.randrange(len(self.regs)), self.rnd.randrange(2)
        x = self.regs[a]
        st, m = call(x.save, self.name(p))
        self.saved[p] = x
        return self.emit({'op': 'save', 'a': a + 1, 'path': p + 1}, st, m)

    def args(self, p, cls):
        """Arguments given to the constructor besides the file name."""
        rnd = self.rnd
        x = self.saved[p]
        g, kw = dict(NOARGS), {}
        if x is None:
            return g, kw
        if rnd.random() < 0.25:
            v = codes(x.magnitude)
            ok = [dt for dt in ('f8', 'f4', 'i4', 'i8')
                  if all(c < 100 and (c >= 0 or dt[0] != 'u') or c - 100 in ALLOWED[dt] and dt[0] == 'f' for c in v)]
            if ok:
                g['dt'] = rnd.choice(ok)
                kw['dtype'] = rnd.choice([np.dtype, str])(g['dt'])
        if rnd.random() < 0.15:
            g['newunit'], g['unit'] = True, rnd.choice([12, 24, 36])
            kw['unit'] = unit_name(g['unit'])
        n = x.size
        if cls == 'Map':
            if rnd.random() < 0.15:
                kw['origin'] = g['org'] = rnd.choice(['lower', 'upper'])
            if rnd.random() < 0.15:
                g['cov'] = [[rnd.randint(0, 99) for _ in range(n)]]
                kw['coverage'] = arr(g['cov'][0], float, x.shape)
            if rnd.random() < 0.15:
                g['err'] = [[rnd.randint(0, 99) for _ in range(n)]]
                kw['error'] = arr(g['err'][0], float, x.shape)
        elif cls == 'Tod' and rnd.random() < 0.15:
            g['mask'] = [[rnd.randint(0, 1) for _ in range(n)]]
            kw['mask'] = np.array(g['mask'][0], bool).reshape(x.shape)
        return g, kw

    def load(self):
        rnd = self.rnd
        p, dst = rnd.randrange(2), self.dst()
        x = self.saved[p]
        cls = rnd.choice(['Map', 'Tod', 'FitsArray', *([type(x).__name__] * 3 if x is not None else [])])
        g, kw = self.args(p, cls)
        st, y = call(CLS[cls], self.name(p), **kw)
        naxis = []
        if st == 'ok':
            s2, naxis = call(axes, y)
            naxis = naxis if s2 == 'ok' else [-1]
            self.put(dst, y)
        e = {'op': 'load', 'path': p + 1, 'cls': cls, 'dst': dst + 1, 'g': g, 'naxis': naxis}
        ok = self.emit(e, st, y)
        return ok or x is None

    def parts(self):
        rnd = self.rnd
        p = rnd.randrange(2)
        x = self.saved[p]
        if x is None:
            return True
        cls = type(x).__name__
        size = rnd.randint(1, 4)
        g, kw = self.args(p, cls)
        for k in ('cov', 'err', 'mask'):
            g[k] = []
        for k in ('coverage', 'error', 'mask'):
            kw.pop(k, None)
        kinds = [rnd.choice([str, Path]) for _ in range(size)]

        def do(comm):
            y = CLS[cls](kinds[comm.rank](self.paths[p]), comm=comm, **kw)
            return {'o': observe(y), 'naxis': axes(y)}

        res = self.spmd(size, do)
        bad = [r for r in res if r[0] != 'ok']
        return self.emit({'op': 'parts', 'path': p + 1, 'cls': cls, 'size': size, 'g': g,
                          'parts': [] if bad else [r[1] for r in res]},
                         bad[0][0] if bad else 'ok', bad[0][1] if bad else '')

    def change(self):
        rnd = self.rnd
        a = rnd.randrange(len(self.regs))
        x = self.regs[a]
        what = rnd.choice(['select', 'select', 'unit', 'strip', 'write'])
        if what == 'unit':
            u = rnd.choice([0, 12, 24])
            st, m = call(setattr, x, 'unit', unit_name(u))
            return self.emit({'op': 'unit', 'a': a + 1, 'unit': u}, st, m)
        if what == 'strip':
            st = 'ok'
            for k in ('coverage', 'error', 'mask'):
                if hasattr(x, k):
                    st, m = call(setattr, x, k, None)
            return self.emit({'op': 'strip', 'a': a + 1}, st)
        if what == 'write':
            # the data may be shared with other arrays
            if x.size == 0 or not all(np.may_share_memory(x, y) is False for y in self.regs if y is not x):
                return True
            pos, value = rnd.randrange(x.size), rnd.randint(0, 99)
            st, m = call(x.magnitude.__setitem__, np.unravel_index(pos, x.shape), value)
            return self.emit({'op': 'write', 'a': a + 1, 'pos': pos + 1, 'value': value}, st, m)
        key = tuple(rnd.choice([slice(None), slice(None, None, -1), slice(1, None), slice(None, None, 2), slice(None, 2)])
                    for _ in range(rnd.randint(1, x.ndim)))
        idx = np.arange(x.size).reshape(x.shape)[key]
        if idx.size == 0:
            return True
        dst = self.dst()
        st, y = call(lambda: x[key])
        if st == 'ok':
            self.put(dst, y)
        return self.emit({'op': 'select', 'a': a + 1, 'dst': dst + 1, 'idx': idx.ravel().tolist(),
                          'shape': list(idx.shape)}, st, y)
