"""Geometric objects, layouts and integrations over polygons (Geometry.tla)."""
import math

import numpy as np
from enc import call, near
from pysimulators import LayoutGrid, LayoutGridSquares, Quantity, SceneGrid, geometry

ROTS = [[5, 0], [5, 0], [0, 5], [-5, 0], [0, -5], [3, 4], [-3, 4], [4, -3], [-4, -3]]


def angle(rot, rnd=None):
    a = math.degrees(math.atan2(rot[1], rot[0]))
    if rot[0] * rot[1] == 0:
        a = float(round(a))
    return a + (rnd.choice([0, 0, 0, 360, -360]) if rnd else 0)


def ints(x, scale, tol=1e-3):
    """Nested list of the coordinates, in units of 1 / scale."""
    if isinstance(x, list):
        return [ints(_, scale, tol) for _ in x]
    return near(x, scale, tol)


def array(x, scale, tol=1e-3):
    return ints(np.asarray(x).tolist(), scale, tol)


class Recorder:
    def __init__(self, rnd):
        self.rnd = rnd
        self.events = []

    def add(self, e, st, out=None):
        e['st'] = st
        if st != 'ok':
            e['_msg'] = str(out)
        self.events.append(e)

    def layout_of(self, x):
        """The same array with another memory layout."""
        rnd = self.rnd
        u = rnd.randrange(5)
        if u == 0:
            return np.asfortranarray(x)
        if u == 1:
            y = np.full((2 * len(x),) + x.shape[1:], 7, x.dtype)
            y[::2] = x
            return y[::2]
        if u == 2:
            return x[::-1].copy()[::-1]
        return x

    def grid(self):
        rnd = self.rnd
        return {'nr': rnd.randint(1, 4), 'nc': rnd.randint(1, 4), 'spacing': rnd.choice([1, 2, 3]), 'xr': rnd.random() < 0.4,
                'yr': rnd.random() < 0.4, 'rot': rnd.choice(ROTS), 'root': rnd.choice([1, 2, 3, 4, 4]),
                'center': rnd.choice([[0, 0], [16, -3], [5, 8]])}

    def keywords(self, g, **more):
        kw = {}
        if g['xr'] or self.rnd.random() < 0.3:
            kw['xreflection'] = g['xr']
        if g['yr'] or self.rnd.random() < 0.3:
            kw['yreflection'] = g['yr']
        if g['rot'] != [5, 0] or self.rnd.random() < 0.3:
            kw['angle'] = angle(g['rot'], self.rnd)
        if more.get('squares') and (g['root'] != 4 or self.rnd.random() < 0.3):
            kw['filling_factor'] = (g['root'] / 4) ** 2
        c = [g['center'][0] / 8, g['center'][1] / 8]
        if g['center'] != [0, 0] or self.rnd.random() < 0.3:
            kw[more.get('name', 'center')] = self.rnd.choice([tuple(c), c, np.array(c)])
        return kw

    def grids(self):
        rnd = self.rnd
        g = self.grid()
        shape = (g['nr'], g['nc'])
        shape = list(shape) if rnd.random() < 0.2 else shape
        squares = rnd.random() < 0.5
        kw = self.keywords(g, squares=squares)
        full = (g['nr'], g['nc']) + ((4, 2) if squares else (2,))
        out = np.full(full, np.nan) if rnd.random() < 0.3 else None

        def f():
            k = dict(kw) if out is None else dict(kw, out=out)
            r = (geometry.create_grid_squares if squares else geometry.create_grid)(shape, g['spacing'], **k)
            return r if out is None else out

        st, r = call(f)
        self.add({'op': 'squares' if squares else 'grid', 'g': g, 'obs': array(r, 40) if st == 'ok' else []}, st, r)

    def layouts(self):
        rnd = self.rnd
        g = self.grid()
        nr, nc = g['nr'], g['nc']
        squares = rnd.random() < 0.5
        kw = self.keywords(g, squares=squares, name='origin')
        shape = rnd.choice([(nr, nc), (nr, nc), [nr, nc]])
        spacing, unit, scale = g['spacing'], '', 40
        u = rnd.random()
        if u < 0.2:
            spacing, unit = Quantity(spacing, 'mm'), 'mm'
        elif u < 0.4:
            # the spacing in mm, the origin in m
            spacing, unit = Quantity(spacing, 'mm'), 'mm'
            kw['origin'] = Quantity(np.array(g['center']) / 8000, 'm')
        elif u < 0.55:
            unit = 'mm'
            kw['origin'] = Quantity(np.array(g['center']) / 8, 'mm')
        elif u < 0.65:
            spacing, unit, scale = Quantity(spacing / 1000, 'm'), 'm', 40000
            kw['origin'] = Quantity(np.array(g['center']) / 8, 'mm')
        first = 0
        if rnd.random() < 0.3:
            kw['startswith1'], first = True, 1
        if rnd.random() < 0.4:
            kw['selection'] = np.array([[rnd.random() < 0.7 for _ in range(nc)] for _ in range(nr)])
        if rnd.random() < 0.3:
            o = list(range(nr * nc))
            rnd.shuffle(o)
            kw['ordering'] = np.array(o).reshape(nr, nc)
        part = rnd.choice([None, None, slice(1, None), slice(None, None, -1), [0]])
        e = {'op': 'layout', 'g': g, 'squares': squares, 'expected_unit': unit, 'first': first, 'unit': '',
             'index': [], 'centers': [], 'vertices': [], 'rows': [], 'columns': []}

        def f():
            x = (LayoutGridSquares if squares else LayoutGrid)(shape, spacing, **kw)
            if part is not None and (part != [0] or len(x)):
                x = x[part]
            index = np.arange(x.shape[0] * x.shape[1]).reshape(x.shape)
            return x, index[...].ravel()[x.index] if not isinstance(x.index, slice) else index.ravel()[x.index]

        st, r = call(f)
        if st == 'ok':
            x, index = r
            e['index'] = [int(_) for _ in np.atleast_1d(index)]
            e['centers'] = array(x.center, scale)
            e['unit'] = str(getattr(x.center, 'unit', ''))
            e['rows'] = [int(_) for _ in np.atleast_1d(x.row)]
            e['columns'] = [int(_) for _ in np.atleast_1d(x.column)]
            if squares:
                e['vertices'] = array(x.vertex, scale)
                if x.nvertices != 4 or str(getattr(x.vertex, 'unit', '')) != e['unit']:
                    e['unit'] += '?'
        self.add(e, st, r)

    def rotations(self):
        rnd = self.rnd
        rot = rnd.choice(ROTS)
        n = rnd.randint(1, 6)
        pts = [[rnd.randint(-9, 9), rnd.randint(-9, 9)] for _ in range(n)]
        kind = rnd.choice(['f8', 'f8', 'f8', 'f4', 'i8', 'i4', 'list', 'f16'])
        x = pts if kind == 'list' else np.array(pts, np.longdouble if kind == 'f16' else kind)
        if kind != 'list':
            if rnd.random() < 0.3 and n % 2 == 0:
                x = x.reshape((2, -1, 2))
            elif n == 1 and rnd.random() < 0.5:
                x = x[0]
            if x.ndim > 1:
                x = self.layout_of(x)
        mode = rnd.choice(['', '', 'out', 'in']) if kind in ('f8', 'f4', 'f16') else ''
        before = np.array(x)
        e = {'op': 'rotate', 'pts': pts, 'rot': rot, 'obs': [], 'kept': True}

        def f():
            if mode == '':
                return geometry.rotate(x, angle(rot, rnd))
            y = np.full(x.shape, np.nan, x.dtype) if mode == 'out' else x
            if mode == 'in' and not x.flags.c_contiguous:
                y = x.copy()
            r = geometry.rotate(y if mode == 'in' else x, angle(rot, rnd), out=y)
            if r is not y:
                raise AssertionError('not the output buffer')
            return y

        st, y = call(f)
        if st == 'ok':
            e['obs'] = array(np.reshape(y, (-1, 2)), 5)
            e['kept'] = bool((mode == 'in' or np.array_equal(before, x)) and np.shape(y) == before.shape)
        self.add(e, st, y)

    def rectangles(self):
        rnd = self.rnd
        rot = rnd.choice(ROTS)
        n = rnd.randint(1, 3)
        square = rnd.random() < 0.5
        sizes = [[rnd.randint(1, 9), rnd.randint(1, 9)] for _ in range(n)]
        if square:
            sizes = [[a, a] for a, _ in sizes]
        s = np.array([a for a, _ in sizes] if square else sizes, float)
        shape = s.shape if square else s.shape[:-1]
        if n == 1 and rnd.random() < 0.5:
            s, shape = s[0], ()
        elif n == 2 and rnd.random() < 0.4:
            s, shape = s[:, None], (2, 1)
        kw = {}
        c = rnd.choice([[0, 0], [3, -2]])
        if c != [0, 0] or rnd.random() < 0.3:
            kw['center'] = rnd.choice([c, tuple(c), np.array(c)])
        if rot != [5, 0] or rnd.random() < 0.3:
            kw['angle'] = angle(rot, rnd)
        if rnd.random() < 0.2:
            kw['dtype'] = rnd.choice(['f4', 'f8'])
        elif rnd.random() < 0.3:
            kw['out'] = np.full(shape + (4, 2), np.nan)

        def f():
            r = (geometry.create_square if square else geometry.create_rectangle)(s if rnd.random() < 0.5 else s.tolist(), **kw)
            if 'out' in kw and r is not kw['out'] or r.shape != shape + (4, 2):
                raise AssertionError('output')
            return r

        st, r = call(f)
        self.add({'op': 'rectangle', 'sizes': sizes, 'center': c, 'rot': rot,
                  'obs': array(r.reshape(-1, 4, 2), 10, 1e-2 if kw.get('dtype') == 'f4' else 1e-3) if st == 'ok' else []}, st, r)

    def regulars(self):
        rnd = self.rnd
        n, k0, m = rnd.choice([1, 2, 3, 4, 6, 8, 12, 24]), rnd.choice([0, 0, 1, 3, 6, 23]), rnd.randint(1, 3)
        radii = [rnd.randint(1, 5) for _ in range(m)]
        centers = [[rnd.randint(-3, 3), rnd.randint(-3, 3)] for _ in range(m)]
        r = np.array(radii, float)
        if rnd.random() < 0.5:
            centers = centers[:1] * m
            c = centers[0]
        else:
            c = centers
        if m == 1 and rnd.random() < 0.5:
            r, c = r[0], centers[0]
        kw = {}
        if centers != [[0, 0]] * m or rnd.random() < 0.5:
            kw['center'] = np.array(c) if rnd.random() < 0.5 else c
        circle = k0 == 0 and rnd.random() < 0.5
        if not circle and (k0 or rnd.random() < 0.5):
            kw['angle'] = 15 * k0 - (360 if rnd.random() < 0.2 else 0)

        def f():
            p = geometry.create_circle(r, n=n, **kw) if circle else geometry.create_regular_polygon(n, r, **kw)
            if p.shape != r.shape + (n, 2):
                raise AssertionError('shape')
            return p

        st, p = call(f)
        self.add({'op': 'regular', 'n': n, 'radii': radii, 'centers': centers, 'k0': k0,
                  'obs': array(p.reshape(-1, n, 2), 4096, 1) if st == 'ok' else []}, st, p)

    def areas(self):
        rnd = self.rnd
        n, m = rnd.randint(3, 6), rnd.randint(1, 4)
        ps = [[[rnd.randint(-9, 9), rnd.randint(-9, 9)] for _ in range(n)] for _ in range(m)]
        x = np.array(ps, rnd.choice(['f8', 'f8', 'f4', 'i4']))
        u = rnd.random()
        if m == 1 and u < 0.4:
            x = x[0]
        elif m == 4 and u < 0.4:
            x = x.reshape((2, 2, n, 2))
        elif m == 4 and u < 0.7:
            x = x.reshape((1, 4, n, 2))
        shape = x.shape[:-2]
        x = self.layout_of(x)
        kw = {}
        if rnd.random() < 0.3:
            kw['out'] = np.full(shape, np.nan)
        elif rnd.random() < 0.2:
            kw['dtype'] = 'f4'

        def f():
            before = x.copy()
            a = geometry.surface_simple_polygon(x.tolist() if rnd.random() < 0.2 else x, **kw)
            if 'out' in kw and shape and a is not kw['out'] or np.shape(a) != shape or not np.array_equal(x, before):
                raise AssertionError('output')
            if kw.get('dtype') and a.dtype != np.float32:
                raise AssertionError('dtype')
            return a

        st, a = call(f)
        self.add({'op': 'area', 'polygons': ps, 'obs': array(np.ravel(a), 2) if st == 'ok' else []}, st, a)

    def segments(self):
        rnd = self.rnd
        p = [[rnd.randint(-5, 5), rnd.randint(-5, 5)] for _ in range(rnd.randint(3, 5))]
        if rnd.random() < 0.3:
            p = [[0, 0], [3, 4], [-5, 4]]
        m = rnd.choice([2, 4, 5, 6, 10, 12, 20, 30])
        x = rnd.choice([p, np.array(p), np.array(p, 'f4'), np.asfortranarray(np.array(p, float))])
        st, s = call(geometry.segment_polygon, x, m / 4)
        self.add({'op': 'segment', 'p': p, 'm': m, 'obs': array(s, 4096, 1) if st == 'ok' else []}, st, s)

    def hulls(self):
        rnd = self.rnd
        n = rnd.randint(3, 12)
        k = rnd.choice([3, 5, 9])
        while True:
            pts = [[rnd.randint(0, k), rnd.randint(0, k)] for _ in range(n)]
            if any((b[0] - pts[0][0]) * (c[1] - pts[0][1]) != (b[1] - pts[0][1]) * (c[0] - pts[0][0]) for b in pts for c in pts):
                break
        x = np.array(pts, float)
        if n % 2 == 0 and rnd.random() < 0.3:
            x = x.reshape((2, -1, 2))
        st, hull = call(geometry.convex_hull, pts if rnd.random() < 0.3 else x)
        self.add({'op': 'hull', 'pts': pts, 'obs': array(hull, 1) if st == 'ok' else []}, st, hull)

    def scenes(self):
        rnd = self.rnd
        nr, nc = rnd.randint(1, 4), rnd.randint(1, 4)
        first = rnd.randint(0, 1)
        part = rnd.choice([None, slice(1, None), slice(None, None, -1), [0]])
        dtype = rnd.choice(['f8', 'f4', 'i4'])
        e = {'op': 'scene', 'nc': nc, 'first': first, 'index': [], 'rows': [], 'columns': [], 'maps': False}

        def f():
            s = SceneGrid((nr, nc), startswith1=bool(first), dtype=dtype, origin=rnd.choice(['upper', 'lower', 'UPPER']))
            if part is not None:
                s = s[part]
            row = s.row() if callable(s.row) else s.row
            column = s.column() if callable(s.column) else s.column
            return s, row, column

        st, r = call(f)
        if st == 'ok':
            s, row, column = r
            e['index'] = [int(_) for _ in np.arange(nr * nc)[s.index]]
            e['rows'], e['columns'] = ([int(_) for _ in np.broadcast_to(_, len(s))] for _ in (
                self.expand(row, s), self.expand(column, s)))
            e['maps'] = all(m.shape == (nr, nc) and m.dtype == dtype for m in (s.empty(), s.ones(), s.zeros())) and bool(
                np.all(s.ones() == 1) and np.all(s.zeros() == 0))
        self.add(e, st, r)

    @staticmethod
    def expand(x, s):
        return x if not isinstance(x, slice) else np.arange(s.shape[0] * s.shape[1])[x]

    def integrations(self):
        rnd = self.rnd
        nr, nc = rnd.randint(1, 5), rnd.randint(1, 5)
        nv, n = rnd.randint(3, 6), rnd.choice([0, 1, 1, 2, 3, 4, 4])
        unit = rnd.choice([1, 2, 4, 8])
        lo, hi = rnd.choice([(0, 4), (0, 4), (-3, 7), (1, 2)])
        polygons = [self.polygon(nv, lo * unit - unit // 2, hi * unit + unit // 2) for _ in range(n)]
        x = np.array(polygons, float).reshape(n, nv, 2) / unit
        shape = (n,)
        u = rnd.random()
        if n == 1 and u < 0.3:
            x, shape = x[0], ()
        elif n == 4 and u < 0.4:
            x, shape = x.reshape((2, 2, nv, 2)), (2, 2)
        x = self.layout_of(x) if n and len(x) else x
        if rnd.random() < 0.2:
            x = x.astype('f4')
        kw = {}
        if rnd.random() < 0.4:
            kw['dtype'] = rnd.choice(['f4', 'f8', np.float32, np.float64])
        if rnd.random() < 0.4:
            kw['dtype_index'] = rnd.choice(['i4', 'i8', np.int32, np.int64])
        if rnd.random() < 0.4:
            kw['ncolmax'] = rnd.choice([0, 1, 2, 9, 30])
        tod = rnd.random() < 0.4
        e = {'op': 'integrate', 'polygons': polygons, 'nr': nr, 'nc': nc, 'unit': unit, 'obs': [], 'outside': False, 'shape': False}

        def f():
            scene = SceneGrid((nr, nc))
            before = x.copy()
            op = scene.get_integration_operator(x.tolist() if rnd.random() < 0.2 and n else x, **kw)
            ok = op.shapein == (nr, nc) and op.shapeout == shape and np.array_equal(before, x)
            ok = ok and op.matrix.dtype == np.dtype(kw.get('dtype', float))
            ok = ok and op.matrix.data['index'].dtype == np.dtype(kw.get('dtype_index', 'i4'))
            if tod:
                # through its products: one pixel at a time
                d = np.zeros((n, nr * nc))
                for j in range(nr * nc):
                    m = np.zeros((nr, nc))
                    m.ravel()[j] = 1
                    d[:, j] = np.ravel(op(m))
                t = np.ones(shape)
                ok = ok and np.allclose(op.T(t), d.sum(axis=0).reshape((nr, nc)), atol=1e-5)
            else:
                d = op.todense().reshape((n, nr * nc))
            data = np.asarray(op.matrix.data)
            for r in data:
                i = r['index'][r['index'] >= 0].tolist()
                ok = ok and len(set(i)) == len(i) and all(_ < nr * nc for _ in i)
            return d, bool(op.outside), ok

        st, r = call(f)
        if st == 'ok':
            e['obs'], e['outside'], e['shape'] = array(r[0], 2048, 1), r[1], bool(r[2])
            e['obs'] = e['obs'] if n else []
        self.add(e, st, r)

    def polygon(self, n, lo, hi):
        """Simple polygons: their vertices are sorted around a point (convex or star-shaped), in either direction."""
        rnd = self.rnd
        while True:
            c = [(lo + hi) / 2 + 0.13, (lo + hi) / 2 + 0.21]
            pts = [[rnd.randint(lo, hi), rnd.randint(lo, hi)] for _ in range(n)]
            if rnd.random() < 0.1:
                pts[1] = pts[0]
            pts.sort(key=lambda p: math.atan2(p[1] - c[1], p[0] - c[0]))
            # the vertices are seen from c in this order: the polygon is simple when no two of them are aligned with c,
            # and c is inside
            a = [math.atan2(p[1] - c[1], p[0] - c[0]) for p in pts]
            gaps = [(b - a_) for a_, b in zip(a, a[1:])] + [a[0] + 2 * math.pi - a[-1]]
            if max(gaps) < math.pi:
                break
        k = rnd.randrange(n)
        pts = pts[k:] + pts[:k]
        return pts if rnd.random() < 0.5 else pts[::-1]

    def refusals(self):
        rnd = self.rnd
        grid = SceneGrid((2, 3))
        square = [[0, 0], [1, 0], [1, 1]]
        name, error, f = rnd.choice([
            ('removed elements', 'NotImplementedError', lambda: grid[1:].get_integration_operator([square])),
            ('type of the values', 'TypeError', lambda: grid.get_integration_operator([square], dtype='i4')),
            ('type of the indices', 'TypeError', lambda: grid.get_integration_operator([square], dtype_index='i2')),
            ('origin', 'ValueError', lambda: SceneGrid((2, 3), origin='middle')),
            ('type of the origin', 'TypeError', lambda: SceneGrid((2, 3), origin=1)),
            ('dimensions of the scene', 'ValueError', lambda: SceneGrid((2,))),
            ('dimensions of the scene', 'ValueError', lambda: SceneGrid((2, 3, 4))),
            ('dimensions of the layout', 'ValueError', lambda: LayoutGrid((2,), 1)),
            ('shape of the layout', 'TypeError', lambda: LayoutGrid(2, 1)),
            ('origin of the layout', 'ValueError', lambda: LayoutGrid((2, 3), 1, origin=(1, 2, 3))),
            ('last dimension of the points', 'ValueError', lambda: geometry.convex_hull([[1, 2, 3], [4, 5, 6], [7, 8, 10]])),
            ('sizes of the rectangle', 'ValueError', lambda: geometry.create_rectangle([1, 2, 3])),
            ('dimensions of the vertices', 'ValueError', lambda: geometry.segment_polygon([1, 2], 1)),
        ])
        st, r = call(f)
        self.add({'op': 'refused', 'name': name, 'error': 'exc:' + error}, st, r)


def history(rnd):
    r = Recorder(rnd)
    for _ in range(rnd.randint(2, 4)):
        rnd.choice([r.grids, r.layouts, r.layouts, r.rotations, r.rectangles, r.regulars, r.areas, r.segments, r.hulls,
                    r.scenes, r.integrations, r.integrations, r.integrations, r.refusals])()
    return r.events
