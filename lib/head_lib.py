"""FITS headers and their coordinate systems (Headers.tla)."""
import math
import os

import numpy as np
from astropy.io import fits
from astropy.wcs import WCS
from enc import NAN, NONINT, call, near
from pysimulators import SceneGrid, wcsutils
from pysimulators.wcsutils import (WCSToPixelOperator, WCSToWorldOperator, create_fitsheader,
                                   create_fitsheader_for, fitsheader2shape)

ROTS = [(5, 0), (0, 5), (-5, 0), (0, -5), (4, 3), (3, 4), (-3, 4), (-4, 3), (-4, -3), (-3, -4), (3, -4), (4, -3)]
ANGLES = [math.degrees(math.atan2(s, c)) for c, s in ROTS]
CTYPES = {1: ('RA---CAR', 'DEC--CAR'), 2: ('LINEAR', 'LINEAR')}
BITPIX = {'uint8': 8, 'int16': 16, 'int32': 32, 'int64': 64, 'float32': -32, 'float64': -64}


def cd_of(c, t):
    co, si = ROTS[t - 1][0], -ROTS[t - 1][1]
    return [[c[0] * co, c[0] * si], [-c[1] * si, c[1] * co]]


def make(naxis, w, how='cd', **kw):
    """The header of a model header."""
    if how == 'cd':
        kw['cd'] = np.array(w['cd']) / 8
    return create_fitsheader(naxis, crval=w['crval'], crpix=np.array(w['crpix']) / 2, ctype=CTYPES[w['ctype']],
                             cunit='deg' if w['ctype'] == 1 else '', **kw)


def rotation(pa):
    """Index of a position angle, or 0."""
    for i, a in enumerate(ANGLES):
        if abs((pa - a + 180) % 360 - 180) < 1e-7:
            return i + 1
    return 0


def decompose(header):
    (c1, c2), pa = wcsutils.get_cdelt_pa(header)
    return [near(c1, 8 / 5), near(c2, 8 / 5)], rotation(pa)


def getw(h):
    if not all(k in h for k in ('CRVAL1', 'CRPIX1', 'CD1_1')):
        return []
    ctype = [k for k, v in CTYPES.items() if (h['CTYPE1'], h['CTYPE2']) == v]
    return [{'crval': [near(h['CRVAL1']), near(h['CRVAL2'])], 'crpix': [near(h['CRPIX1'], 2), near(h['CRPIX2'], 2)],
             'cd': [[near(h[f'CD{i}_{j}'], 8) for j in (1, 2)] for i in (1, 2)], 'ctype': (ctype or [0])[0]}]


def observe(h, dtype):
    n = h['NAXIS']
    # the header describes an array: Astropy can make it
    try:
        data = True
        if 'XTENSION' in h:
            data = h['XTENSION'].strip() == 'IMAGE' and h['PCOUNT'] == 0 and h['GCOUNT'] == 1
        else:
            data = h['SIMPLE'] is True
    except KeyError:
        data = False
    return {'naxis': [int(h[f'NAXIS{i + 1}']) for i in range(n)], 'bitpix': int(h['BITPIX']), 'ext': [h['EXTNAME']] if 'XTENSION' in h else [],
            'shape': [int(_) for _ in fitsheader2shape(h)], 'w': getw(h), 'has': bool(n and wcsutils.has_wcs(h)), 'data': bool(data)}


def deg16(x):
    return near(x, 16, 1e-4)


def world_out(y, ctype):
    out = []
    for a, b in np.asarray(y, float).reshape(-1, 2).tolist():
        lon = deg16(a)
        out.append([lon % 5760 if ctype == 1 and lon != NONINT else lon, deg16(b)])
    return out


def layout(rnd, x):
    """The same values in another memory layout or nesting."""
    k = rnd.randrange(6)
    if k == 0:
        z = np.empty((x.shape[0], 4))
        z[:, ::2] = x
        return z[:, ::2]
    if k == 1:
        return np.asfortranarray(x)
    if k == 2 and x.shape[0] % 2 == 0:
        return x.reshape(-1, 2, 2)
    if k == 3 and x.shape[0] == 1:
        return x[0]
    if k == 4:
        return x[::-1].copy()[::-1]
    return x


class Recorder:
    def __init__(self, rnd):
        self.rnd = rnd
        self.events = []
        self.h = None
        self.w = []

    def create(self):
        rnd = self.rnd
        nd = rnd.choice([1, 2, 2, 2, 2, 2, 3, 4])
        naxis = [rnd.randint(1, 6) for _ in range(nd)]
        how = rnd.choice(['cdelt', 'cdelt', 'cd', 'cd', 'none']) if nd > 1 else 'none'
        c = [rnd.choice([-1, 1]) * rnd.randint(1, 3), rnd.choice([-1, 1]) * rnd.randint(1, 3)]
        t = rnd.randint(1, 12)
        ctype = rnd.choice([1, 1, 2])
        crval = [rnd.choice([0, 10, 359, 180, 270]), 0] if ctype == 1 else [rnd.randint(-9, 9), rnd.randint(-9, 9)]
        crpix = [] if nd == 2 and rnd.random() < 0.3 else [rnd.randint(-4, 14), rnd.randint(-4, 14)]
        dtype = rnd.choice(list(BITPIX))
        ext = rnd.choice([[], [], [], ['X'], ['']])
        kw = {'crval': crval, 'ctype': CTYPES[ctype], 'cunit': 'deg' if ctype == 1 else ''}
        e = {'op': 'create', 'how': how, 'naxis': naxis, 'bitpix': BITPIX[dtype], 'ext': ext, 'c': c, 't': t,
             'ctype': ctype, 'crval': crval, 'crpix': crpix, 'cd': cd_of(c, t), 'bad': 'no'}
        if crpix:
            kw['crpix'] = np.array(crpix) / 2
        if ext:
            kw['extname'] = ext[0]
        if how == 'cdelt':
            kw['cdelt'] = [c[0] * 5 / 8, c[1] * 5 / 8]
            if c[0] == c[1] and ctype != 2 and rnd.random() < 0.7 or c[0] == c[1] and rnd.random() < 0.7:
                kw['cdelt'] = c[0] * 5 / 8       # not the default axes: the same scale along them
            if t != 1 or rnd.random() < 0.5:
                kw['pa'] = ANGLES[t - 1] + 360 * rnd.randint(-1, 1)
        elif how == 'cd':
            if rnd.random() < 0.5:                # any matrix
                e['cd'] = [[rnd.randint(-9, 9) for _ in '12'] for _ in '12']
                if e['cd'][0][0] * e['cd'][1][1] == e['cd'][0][1] * e['cd'][1][0]:
                    e['cd'] = [[3, 1], [1, -2]]
                e['shear'] = True
            kw['cd'] = (np.array(e['cd']) / 8).tolist() if rnd.random() < 0.5 else np.array(e['cd']) / 8
            if rnd.random() < 0.3:
                kw['pa'] = 45           # superseded by cd
        if how != 'none' and rnd.random() < 0.1:
            e['bad'] = bad = rnd.choice(['crval', 'crpix', 'ctype', 'cunit', 'cd', 'naxes'])
            kw[bad] = {'crval': [1, 2, 3], 'crpix': [1], 'ctype': ('RA---CAR',), 'cunit': ['deg'] * 3,
                       'cd': np.eye(3), 'naxes': None}[bad]
            if bad == 'naxes':
                del kw[bad]
        data = None
        if e['bad'] == 'naxes':
            st, h = call(create_fitsheader, [1] * 9, **kw)
        elif rnd.random() < 0.5:
            data = np.zeros(naxis[::-1], dtype)
            st, h = call(create_fitsheader_for, data if rnd.random() < 0.5 or dtype != 'float64' else data.tolist(), **kw)
        else:
            naxes = naxis[0] if nd == 1 and rnd.random() < 0.5 else tuple(naxis) if rnd.random() < 0.5 else np.array(naxis)
            if dtype != 'float64' or rnd.random() < 0.5:
                kw['dtype'] = rnd.choice([dtype, np.dtype(dtype), np.dtype(dtype).type])
            st, h = call(create_fitsheader, naxes, **kw)
        e['st'] = st
        e['obs'] = observe(h, dtype) if st == 'ok' else []
        if st != 'ok':
            e['_msg'] = h
        self.events.append(e)
        if st == 'ok':
            self.h, self.w, self.shear = h, e['obs']['w'], e.get('shear', False)
        return st == 'ok'

    def decompose(self):
        if self.w and self.shear:
            return
        st, v = call(decompose, self.h)
        e = {'op': 'decompose', 'st': st, 'c': [0, 0], 't': 1, 'again': []}
        if st == 'ok':
            e['c'], e['t'] = v[0], max(v[1], 1)
            if v[1] == 0:
                e['c'] = [NONINT, NONINT]
            cdelt, pa = wcsutils.get_cdelt_pa(self.h)
            h2 = create_fitsheader((2, 2), cdelt=cdelt, pa=pa, ctype=CTYPES[self.w[0]['ctype']])
            e['again'] = getw(h2)[0]['cd']
        self.events.append(e)

    def classic(self):
        rnd = self.rnd
        c = [rnd.choice([-1, 1]) * rnd.randint(1, 9), rnd.choice([-1, 1]) * rnd.randint(1, 9)]
        rot = rnd.randint(-200, 200)
        h = fits.Header()
        h['NAXIS'] = 2
        h['CDELT1'], h['CDELT2'], h['CROTA2'] = c[0] / 8, c[1] / 8, float(rot)
        st, v = call(wcsutils.get_cdelt_pa, h)
        e = {'op': 'classic', 'st': st, 'cdelt': c, 'pa': -rot, 'c': [], 't': 0}
        if st == 'ok':
            e['c'], e['t'] = [near(_, 8) for _ in v[0]], near(v[1])
        self.events.append(e)

    def operators(self):
        rnd = self.rnd
        if not self.w or self.h['NAXIS'] != 2:
            return None
        origin = rnd.randint(0, 1)
        wcs = self.h if rnd.random() < 0.7 else WCS(self.h)
        args = (wcs, origin) if origin or rnd.random() < 0.5 else (wcs,)
        if rnd.random() < 0.5:
            op = WCSToWorldOperator(*args)
            return origin, op, op.I
        op = WCSToPixelOperator(*args)
        return origin, op.I, op

    def coordinates(self):
        rnd = self.rnd
        ops = self.operators()
        if ops is None:
            return
        origin, w_op, p_op = ops
        n = rnd.choice([1, 1, 2, 4, 7])
        ps = [[rnd.randint(-20, 30), rnd.randint(-20, 30)] for _ in range(n)]
        x = np.array(ps) / 2 - (1 - origin)
        for name, op in (('world', w_op), ('pixel', p_op)):
            z = layout(rnd, x)
            before = z.copy()
            form = rnd.randrange(4)
            buffer = True
            if form == 0:
                out = layout(rnd, np.full(x.shape, 77.0)).reshape(z.shape) if rnd.random() < 0.5 else np.full(z.shape, 77.0)
                if out.shape == z.shape and rnd.random() < 0.3:
                    out = np.full(z.shape[:-1] + (4,), 77.0)[..., ::2]
                st, y = call(op, z, out)
                buffer = st != 'ok' or bool(np.array_equal(out, y))
                y = out if st == 'ok' else y
            elif form == 1:
                zz = z.copy()
                st, y = call(op, zz, zz)
                y = zz if st == 'ok' else y
            elif form == 2:
                st, y = call(op, z.tolist())
            else:
                st, y = call(op, z)
            if st == 'ok' and np.shape(y) != z.shape:
                st = 'exc:shape'
            e = {'op': name, 'st': st, 'ps': ps, 'qs': [], 'origin': origin, 'intact': bool(np.array_equal(z, before)),
                 'buffer': buffer}
            if st == 'ok':
                y = np.asarray(y).reshape(-1, 2)
                e['qs'] = world_out(y, self.w[0]['ctype']) if name == 'world' else \
                    [[near(a, 2, 1e-4) for a in p] for p in (y + (1 - origin)).tolist()]
            else:
                e['_msg'] = str(y)
            self.events.append(e)
            if st != 'ok':
                return
            x = y
        if rnd.random() < 0.2:
            st, _ = call(rnd.choice([w_op, p_op]), rnd.choice([[1.0], 3.0, np.zeros((2, 3)), np.zeros(())]))
            self.events.append({'op': 'invalid', 'st': st})

    def scene(self):
        rnd = self.rnd
        if not self.w or self.h['NAXIS'] != 2:
            return
        nx, ny = self.h['NAXIS1'], self.h['NAXIS2']
        ij = [[rnd.randrange(nx), rnd.randrange(ny)] for _ in range(rnd.randint(1, 5))]

        def work():
            s = SceneGrid.fromfits(self.h)
            index = s.to1d(np.array(ij))
            back = s.toNd(np.array(index))
            r, c = s.row(), s.column()
            pos = [int(i) for i in index]
            seen = s.to1d(np.round(s.topixel(s.toworld(np.array(ij, float)))).astype(int))
            return {'shape': [int(_) for _ in s.shape], 'index': pos, 'back': np.asarray(back).astype(int).tolist(),
                    'rc': [[int(r[p]), int(c[p])] for p in pos], 'seen': [int(_) for _ in seen]}

        st, v = call(work)
        e = {'op': 'scene', 'st': st, 'ij': ij}
        e.update(v if st == 'ok' else {'_msg': v})
        self.events.append(e)

    def string(self):
        rnd = self.rnd
        h = self.h.copy()
        if rnd.random() < 0.4:
            h['ENDTIME'] = (3.5, 'a comment')
        if rnd.random() < 0.4:
            h['OBJECT'] = "it's /END"
        if rnd.random() < 0.3:
            h['COMMENT'] = 'END of it'
        h['ZLAST'] = 1
        s = h.tostring(padding=rnd.random() < 0.5)
        if rnd.random() < 0.3:
            s = h.tostring(endcard=False, padding=False)
        elif rnd.random() < 0.3:
            s = h.tostring(padding=False) + 'XTENSION= 3'.ljust(80)
        st, v = call(wcsutils.str2fitsheader, s)
        same = st == 'ok' and [str(c) for c in v.cards] == [str(c) for c in h.cards]
        self.events.append({'op': 'string', 'st': st, 'same': bool(same), '_msg': s[-400:] if st == 'ok' else v})

    def combine(self):
        rnd = self.rnd
        n = rnd.choice([1, 2, 2, 3])
        lon0, lat0 = rnd.choice([0, 10, 359, 180]), rnd.choice([0, 0, 30, -60])
        hs, scales, pas = [], [], []
        tight = True
        pa0 = rnd.choice([0, 350, 90, 150, 200])
        for _ in range(n):
            c = rnd.randint(1, 3)
            pa = pa0 + rnd.randint(0, 80)
            pas.append(pa)
            scales.append(c)
            nx, ny = rnd.randint(1, 9), rnd.randint(1, 9)
            # the combined map also covers the reference pixels
            crpix = None if rnd.random() < 0.4 else (rnd.randint(-5, 10), rnd.randint(-5, 10))
            tight = tight and (crpix is None or 1 <= crpix[0] <= nx and 1 <= crpix[1] <= ny)
            hs.append(create_fitsheader((nx, ny), cdelt=c / 64, pa=pa, crpix=crpix,
                                        crval=(lon0 + rnd.randint(-8, 8) / 8, lat0 + rnd.randint(-8, 8) / 8)))
        before = [h.tostring() for h in hs]
        kw = {}
        if rnd.random() < 0.3:
            kw['cdelt'] = rnd.choice([1, 2]) / 64
        if rnd.random() < 0.3:
            kw['pa'] = rnd.randint(0, 359)
        st, h = call(wcsutils.combine_fitsheader, hs if n > 1 or rnd.random() < 0.5 else hs[0], **kw)
        e = {'op': 'combine', 'st': st, 'intact': [x.tostring() for x in hs] == before, 'corners': [], 'naxis': [1, 1],
             'cdelt': [], 'want': [], 'n': 0, 'pa': 0, 'sum': 0, 'tight': tight}
        if st == 'ok':
            proj = WCS(h)
            for g in hs:
                nx, ny = g['NAXIS1'], g['NAXIS2']
                w = WCS(g).wcs_pix2world([[a, b] for a in (0.5, nx + 0.5) for b in (0.5, ny + 0.5)], 1)
                e['corners'] += [[int(round(1000 * v)) if v == v and abs(v) < 1e5 else NONINT for v in p]
                                 for p in proj.wcs_world2pix(w, 1).tolist()]
            e['naxis'] = [int(h['NAXIS1']), int(h['NAXIS2'])]
            (c1, c2), pa = wcsutils.get_cdelt_pa(h)
            e['cdelt'] = [near(c1, 64, 1e-6), near(c2, 64, 1e-6)]
            s = near(kw['cdelt'], 64) if 'cdelt' in kw else min(scales)
            e['want'] = [-s, s]
            e['n'], e['sum'] = (1, 10 * kw['pa']) if 'pa' in kw else (n, 10 * (n * pas[0] + sum((p - pas[0]) for p in pas)))
            e['pa'] = near(pa % 360, 10 * e['n'], 1e-5)      # tenths of degree, times n
        else:
            e['_msg'] = h
        self.events.append(e)

    def mean(self):
        rnd = self.rnd
        a = rnd.choice([0, 300, 350, 359, 45, 271, 180, 270, 100, rnd.randrange(360)])
        n = rnd.choice([0, 1, 2, 3, 4, 5, 6])
        width = rnd.choice([0, 20, 89])
        vs = [a + rnd.randint(0, width) for _ in range(n)]
        x = [v + 360.0 * rnd.randint(-2, 2) for v in vs]
        if rnd.random() < 0.3:
            x.insert(rnd.randint(0, n), float('nan'))
        x = np.array(x)
        if rnd.random() < 0.3 and len(x) % 2 == 0:
            x = x.reshape(2, -1)
        m = wcsutils.mean_degrees(x)
        lo, hi = wcsutils.minmax_degrees(x)
        self.events.append({'op': 'mean', 'vs': [v % 360 for v in vs], 'mean': near(m, 60, 1e-5), 'min': near(lo, 60, 1e-5),
                            'max': near(hi, 60, 1e-5)})

    def angle(self):
        rnd = self.rnd
        a = [rnd.randrange(0, 360, 5) for _ in range(rnd.choice([1, 1, 3]))]
        b = [rnd.randrange(0, 360, 5) for _ in range(len(a) if len(a) > 1 and rnd.random() < 0.5 else rnd.choice([1, 3]) if len(a) == 1 else 1)]
        if rnd.random() < 0.5:      # on the equator
            lon = rnd.randint(-1, 1) * 360
            p, q = ([v + lon for v in a], [0] * len(a)), (b, [0] * len(b))
        else:                       # round a meridian circle
            l0 = rnd.randrange(0, 360, 30)

            def mer(v):
                v = v % 360
                return (l0, v) if v <= 90 else (l0 + 180, 180 - v) if v <= 270 else (l0, v - 360)
            p, q = ([mer(v)[0] for v in a], [mer(v)[1] for v in a]), ([mer(v)[0] for v in b], [mer(v)[1] for v in b])
        sc = len(a) == 1 and len(b) == 1 and rnd.random() < 0.5
        if sc:
            p, q = (p[0][0], p[1][0]), (q[0][0], q[1][0])
        if rnd.random() < 0.5:
            st, v = call(wcsutils.angle_lonlat, *p, *q)
        else:
            st, v = call(wcsutils.angle_lonlat, p, q)
        self.events.append({'op': 'angle', 'a': a, 'b': b, 'st': st, 'scalar': st != 'ok' or (np.ndim(v) == 0) == sc,
                            'out': [near(_, 1, 1e-4) for _ in np.atleast_1d(v)] if st == 'ok' else []})

    def barycenter(self):
        rnd = self.rnd
        lon, lat = rnd.choice([0, 30, 180, 350]), rnd.choice([0, 0, 10, -50])
        pts = []
        for _ in range(rnd.randint(1, 3)):
            d = rnd.randint(0, 80)
            kind = rnd.choice(['self', 'lon', 'lat'])
            if kind == 'self':
                pts += [(lon, lat)]
            elif kind == 'lon' and lat == 0:
                pts += [(lon - d, 0), (lon + d, 0)]
            else:
                d = min(d, 35)
                pts += [(lon, lat - d), (lon, lat + d)]
        rnd.shuffle(pts)
        if rnd.random() < 0.2:
            pts.append((float('nan'), 3))
        st, v = call(wcsutils.barycenter_lonlat, [p[0] for p in pts], [p[1] for p in pts])
        out = [near(v[0], 1, 1e-4), near(v[1], 1, 1e-4)] if st == 'ok' else []
        if out and out[0] != NONINT:
            out[0] %= 360
        self.events.append({'op': 'barycenter', 'st': st, 'out': out, 'centre': [lon % 360, lat]})
