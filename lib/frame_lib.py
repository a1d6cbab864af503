"""Celestial frames and samplings (Frames.tla)."""
import math

import erfa
import numpy as np
from astropy.time import Time, TimeDelta
from enc import NONINT, call, near
from pysimulators import Sampling, SamplingEquatorial, SamplingHorizontal
from pysimulators.operators import (
    CartesianEquatorial2GalacticOperator, CartesianEquatorial2HorizontalOperator, CartesianGalactic2EquatorialOperator,
    CartesianHorizontal2EquatorialOperator, SphericalEquatorial2GalacticOperator, SphericalEquatorial2HorizontalOperator,
    SphericalGalactic2EquatorialOperator, SphericalHorizontal2EquatorialOperator)

ROTS = [(5, 0), (0, 5), (-5, 0), (0, -5), (4, 3), (3, 4), (-3, 4), (-4, 3), (-4, -3), (-3, -4), (3, -4), (4, -3)]
ANGLES = [math.degrees(math.atan2(s, c)) for c, s in ROTS]
LATITUDES = [i + 1 for i, (c, s) in enumerate(ROTS) if c >= 0]
CONVENTIONS = ['azimuth,elevation', 'elevation,azimuth', 'azimuth,zenith', 'zenith,azimuth']
QUARTER = 86400 / 1.002737909350795 / 4      # seconds


def unit(lon, lat):
    lon, lat = math.radians(lon), math.radians(lat)
    return np.array([math.cos(lat) * math.cos(lon), math.cos(lat) * math.sin(lon), math.sin(lat)])


def _galactic():
    """Rows: the axes of the galactic frame in the equatorial one."""
    pole = unit(192.85948, 27.12825)
    centre = unit(266.40510, -28.936175)
    centre = centre - pole * np.dot(pole, centre)
    centre /= np.linalg.norm(centre)
    return np.array([centre, np.cross(pole, centre), pole])


GAL = _galactic()


def gst(time):
    """Greenwich mean sidereal time, in degrees."""
    return np.degrees(erfa.gmst82(time.jd1, time.jd2))


def encode(x, convention, degrees):
    """Spherical coordinates of vectors."""
    x = np.asarray(x, float)
    az = np.arctan2(x[..., 1], x[..., 0])
    r = np.sqrt(np.sum(x**2, axis=-1))
    el = np.arcsin(np.clip(x[..., 2] / r, -1, 1))
    return assemble(az, el, convention, degrees)


def assemble(az, el, convention, degrees):
    if 'zenith' in convention:
        el = np.pi / 2 - el
    c = (az, el) if convention.startswith('azimuth') else (el, az)
    c = np.stack(c, -1)
    return np.degrees(c) if degrees else c


def decode(c, convention, degrees):
    c = np.radians(c) if degrees else np.asarray(c, float)
    az, el = (c[..., 0], c[..., 1]) if convention.startswith('azimuth') else (c[..., 1], c[..., 0])
    if 'zenith' in convention:
        el = np.pi / 2 - el
    return np.stack([np.cos(el) * np.cos(az), np.cos(el) * np.sin(az), np.sin(el)], -1)


def ints(x, scale=25, tol=2e-2):
    return [[near(v, scale, tol) for v in r] for r in np.asarray(x, float).reshape(-1, 3).tolist()]


def horizontal(vs, sites):
    """The model of the specification, in floating point, to make the inputs."""
    out = []
    for v, (la, st) in zip(vs, sites):
        (c, s), (C, S) = ROTS[la - 1], ROTS[st - 1]
        z = np.array([c * C, c * S, 5 * s]) / 25
        e = np.array([-S, C, 0]) / 5
        out.append([np.dot(v, np.cross(z, e)), np.dot(v, e), np.dot(v, z)])
    return np.array(out)


def site_args(sites, rnd, scalar):
    """Times, latitudes and longitudes of the sites."""
    t0 = Time(rnd.choice(['2000-01-01T12:00:00', '2009-07-14T03:45:12', '1995-02-28T23:59:59', '2024-02-29T00:00:00']),
              scale=rnd.choice(['utc', 'utc', 'tai']))
    if scalar:
        time = t0 if rnd.random() < 0.7 else t0.reshape((1,))
        sites = sites[:1]
        dt = 0
    else:
        dt = np.array([rnd.randint(0, 100000) for _ in sites], float)
        time = t0 + TimeDelta(dt, format='sec')
        if all(s == sites[0] for s in sites) and rnd.random() < 0.3:
            dt = 0 * dt
            time = t0 + TimeDelta(dt, format='sec')
    lst = np.array([ANGLES[s[1] - 1] for s in sites])
    lat = np.array([ANGLES[s[0] - 1] for s in sites])
    lon = lst - gst(time) + 360 * rnd.choice([-1, 0, 1])
    if scalar:
        if np.ndim(lon) == 1 and not time.isscalar:
            pass
        else:
            lon = float(np.ravel(lon)[0])
        lat = float(lat[0])
    elif len(set(lat)) == 1 and rnd.random() < 0.5:
        lat = float(lat[0])
    return time, lat, lon


NAMES = {'EG': ('Equatorial2Galactic',), 'GE': ('Galactic2Equatorial',), 'EH': ('Equatorial2Horizontal',),
         'HE': ('Horizontal2Equatorial',)}
CART = {'EG': CartesianEquatorial2GalacticOperator, 'GE': CartesianGalactic2EquatorialOperator,
        'EH': CartesianEquatorial2HorizontalOperator, 'HE': CartesianHorizontal2EquatorialOperator}
SPH = {'EG': SphericalEquatorial2GalacticOperator, 'GE': SphericalGalactic2EquatorialOperator,
       'EH': SphericalEquatorial2HorizontalOperator, 'HE': SphericalHorizontal2EquatorialOperator}


def to_frame(x, frame):
    """Equatorial vectors in the frame E or G."""
    return np.dot(x, GAL.T) if frame == 'G' else np.asarray(x, float)


def from_frame(x, frame):
    return np.dot(x, GAL) if frame == 'G' else x


class Recorder:
    def __init__(self, rnd):
        self.rnd = rnd
        self.events = []

    def vector(self):
        while True:
            v = [self.rnd.randint(-4, 4) for _ in range(3)]
            if any(v):
                return v

    def add(self, e, st, out=None):
        e['st'] = st
        if st != 'ok':
            e['_msg'] = str(out)
        self.events.append(e)

    def walk(self):
        rnd = self.rnd
        shape = rnd.choice([(), (1,), (3,), (4,), (2, 3)])
        n = int(np.prod(shape, dtype=int))
        self.shape = shape
        self.vs = [self.vector() for _ in range(n)]
        self.frame = 'E'
        self.sites = []
        self.site_args = None
        self.events.append({'op': 'start', 'vs': self.vs, 'sites': []})
        for _ in range(rnd.randint(2, 7)):
            if self.events[-1].get('st', 'ok') == 'ok':
                self.step()

    def new_sites(self):
        rnd = self.rnd
        n = len(self.vs)
        scalar = len(self.shape) != 1 or rnd.random() < 0.4
        if scalar:
            self.sites = [(rnd.choice(LATITUDES), rnd.randint(1, 12))] * n
        else:
            la = rnd.choice(LATITUDES)
            self.sites = [(la if rnd.random() < 0.5 else rnd.choice(LATITUDES), rnd.randint(1, 12)) for _ in range(n)]
        time, lat, lon = site_args(self.sites, rnd, scalar)
        if scalar and not time.isscalar and (self.shape == () or len(self.shape) == 1 and n != 1 or len(self.shape) == 2):
            time, lon = time[0], float(np.ravel(lon)[0])
        self.site_args = ('NE', time, lat, lon)

    def value(self, frame):
        x = horizontal(self.vs, self.sites) if frame == 'H' else to_frame(np.array(self.vs, float), frame)
        return x.reshape(self.shape + (3,))

    def step(self):
        rnd = self.rnd
        to = {'E': 'GH', 'G': 'E', 'H': 'E'}[self.frame]
        to = rnd.choice(to)
        path = [self.frame + to]
        new = to == 'H'
        if new:
            self.new_sites()
        if to == 'E' and rnd.random() < 0.3:     # a second operator
            if self.frame == 'H':
                path.append('EG')
            elif rnd.random() < 0.5:
                self.new_sites()
                new = True
                path.append('EH')
        last = path[-1][1]
        kind = rnd.choice(['cartesian', 'spherical'])
        vias = [rnd.choice(['direct', 'direct', 'inverse', 'transpose']) for _ in path]
        product = kind == 'cartesian' and rnd.random() < 0.5
        convs = [rnd.choice(CONVENTIONS) for _ in range(len(path) + 1)]
        degrees = rnd.random() < 0.6
        x = self.value(self.frame)
        if kind == 'spherical':
            x = encode(x, convs[0], degrees)
        if rnd.random() < 0.3:
            x = np.asfortranarray(x)

        def build():
            ops = []
            for i, (p, via) in enumerate(zip(path, vias)):
                table = CART if kind == 'cartesian' else SPH
                if kind == 'spherical' and via == 'transpose':
                    via = 'inverse'
                q = p if via == 'direct' else p[::-1]
                args = self.site_args if 'H' in p else ()
                if kind == 'cartesian':
                    op = table[q](*args)
                else:
                    ci, co = (convs[i], convs[i + 1]) if via == 'direct' else (convs[i + 1], convs[i])
                    op = table[q](*args, conventionin=ci, conventionout=co, degrees=degrees)
                ops.append(op if via == 'direct' else op.I if via == 'inverse' else op.T)
            if len(ops) == 1:
                return ops[0]
            return ops[1] * ops[0] if product else ops[1](ops[0])

        before = np.array(x)
        out = None
        if rnd.random() < 0.3:
            out = np.full(x.shape, 77.0)
        st, y = call(lambda: build()(x) if out is None else build()(x, out))
        e = {'op': 'step', 'to': last, 'sites': [list(s) for s in self.sites] if new else [], 'obs': [],
             'name': f'{kind}-{"".join(path)}', 'intact': bool(np.all(before == x)), 'buffer': True}
        if st == 'ok':
            if out is not None:
                e['buffer'] = bool(np.all(np.asarray(y) == out))
            e['buffer'] = e['buffer'] and y.shape == x.shape
            y = np.asarray(y)
            if kind == 'spherical':
                norm = np.sqrt(np.sum(np.array(self.vs, float) ** 2, -1)).reshape(self.shape)
                y = decode(y, convs[-1], degrees) * norm[..., None]
            e['obs'] = ints(from_frame(y, last))
            self.frame = last
        self.add(e, st, y)

    def back(self):
        """There and back by a composition, which may be simplified."""
        rnd = self.rnd
        self.shape = rnd.choice([(), (3,), (2, 3)])
        self.vs = [self.vector() for _ in range(int(np.prod(self.shape, dtype=int)))]
        self.frame = rnd.choice('EG')
        self.new_sites()
        kind = rnd.choice(['cartesian', 'spherical'])
        self.events.append({'op': 'start', 'vs': self.vs, 'sites': []})
        p = rnd.choice(['EG', 'EH']) if self.frame == 'E' else 'GE'
        other = rnd.choice(['class', 'inverse', 'transpose'])
        c = rnd.choice(CONVENTIONS), rnd.choice(CONVENTIONS)
        args = self.site_args if 'H' in p else ()
        x = to_frame(np.array(self.vs, float), self.frame).reshape(self.shape + (3,))

        def f():
            if kind == 'cartesian':
                a = CART[p](*args)
                b = CART[p[::-1]](*args) if other == 'class' else a.I if other == 'inverse' else a.T
                return (b * a)(x)
            a = SPH[p](*args, conventionin=c[0], conventionout=c[1], degrees=True)
            b = (SPH[p[::-1]](*args, conventionin=c[1], conventionout=c[0], degrees=True) if other == 'class' else a.I)
            y = decode(b(a)(encode(x, c[0], True)), c[0], True)
            return y * np.sqrt(np.sum(x**2, -1))[..., None]

        st, y = call(f)
        self.events[-1]['frame'] = self.frame
        # the model considers equatorial vectors
        self.add({'op': 'back', 'name': f'back-{kind}-{p}', 'obs': ints(from_frame(y, self.frame)) if st == 'ok' else []}, st, y)

    def refused(self):
        rnd = self.rnd
        cls = rnd.choice([CART, SPH])[rnd.choice(['EH', 'HE'])]
        st, out = call(cls, rnd.choice(['SW', 'SE', 'EN', '']), Time('2000-01-01'), 45.0, 2.0)
        self.add({'op': 'refused'}, st, out)

    # -- samplings
    def sampling(self):
        rnd = self.rnd
        n = rnd.randint(1, 6)
        kind = rnd.choice('EH')
        vs = []
        while len(vs) < n:
            v = self.vector()
            r = math.sqrt(sum(_ * _ for _ in v))
            if r == int(r):      # unit vectors with the same norm, for the centre
                vs.append(v)
        k = rnd.choice([3, 1])
        vs = [rnd.choice([[3, 0, 0], [0, -3, 0], [0, 0, 3], [1, 2, 2], [2, -1, 2], [-2, 2, 1], [2, 1, -2], [-1, -2, -2],
                          [0, 3, 0], [-3, 0, 0], [0, 0, -3], [-2, -1, 2]]) for _ in range(n)]
        site = (rnd.choice(LATITUDES), rnd.randint(1, 12))
        coords = encode(np.array(vs, float), 'azimuth,elevation', True)
        lon, lat = coords[:, 0], coords[:, 1]
        same = rnd.random()
        if same < 0.1:
            lon, lat, vs = float(lon[0]), float(lat[0]), vs[:1]
            n = 1
        mask = [False] * n
        kw = {}
        u = rnd.random()
        if u < 0.3:
            mask = [rnd.random() < 0.4 for _ in range(n)]
            kw['masked'] = np.array(mask)
        elif u < 0.4:
            mask = [True] * n
            kw['masked'] = True
        elif u < 0.5:
            kw['masked'] = False
        date = Time(rnd.choice(['2000-01-01T00:00:00', '2010-06-07T18:30:00.25']), scale='utc')
        index = list(range(n))
        if kind == 'H':
            kw.update(latitude=ANGLES[site[0] - 1], longitude=float(ANGLES[site[1] - 1] - gst(date)))
            if rnd.random() < 0.5:
                kw['period'] = QUARTER
            else:
                index = [rnd.randint(0, 7) for _ in range(n)]
                kw['time'] = np.array(index) * QUARTER
        kw['date_obs'] = rnd.choice([date, date.reshape((1,)), date.isot])
        cls = SamplingEquatorial if kind == 'E' else SamplingHorizontal
        names = ('ra', 'dec', 'pa') if kind == 'E' else ('azimuth', 'elevation', 'pitch')
        how = rnd.choice(['args', 'args', 'keywords', 'number', 'assigned'])
        if same >= 0.1 and same < 0.25:     # on a meridian or a parallel, given by a scalar
            if rnd.random() < 0.5:
                lat = 0.0
                az = [rnd.choice([0, 90, 180, 270]) for _ in range(n)]
                lon = np.array(az, float)
                vs = [{0: [3, 0, 0], 90: [0, 3, 0], 180: [-3, 0, 0], 270: [0, -3, 0]}[a] for a in az]
            else:
                lon = 90.0
                el = [rnd.choice([0, 90, -90]) for _ in range(n)]
                lat = np.array(el, float)
                vs = [{0: [0, 3, 0], 90: [0, 0, 3], -90: [0, 0, -3]}[a] for a in el]

        def f():
            third = rnd.choice([(), (0.0,), (np.arange(n) * 1.0,)])
            if how == 'args':
                return cls(lon, lat, *third, **kw)
            if how == 'keywords':
                return cls(**{names[0]: lon, names[1]: lat}, **kw)
            if how == 'number':
                return cls(n, **{names[0]: lon, names[1]: lat}, **kw)
            s = cls(n, **kw)
            setattr(s, names[0], lon)
            setattr(s, names[1], lat)
            return s

        st, s = call(f)
        self.add({'op': 'sampling', 'kind': kind, 'vs': vs, 'site': list(site), 'index': index, 'mask': mask}, st, s)
        self.n, self.s, self.kind = n, s, kind
        self.mask = mask
        self.assigned = False
        if st == 'ok':
            if rnd.random() < 0.2:
                s.cartesian = s.cartesian
                self.assigned = True
            for _ in range(rnd.randint(1, 6)):
                getattr(self, rnd.choice(['subset', 'attribute', 'attribute', 'attribute', 'center', 'move']))()

    def subset(self):
        rnd = self.rnd
        if self.n == 0:
            return
        u = rnd.choice(['slice', 'mask', 'list'])
        if u == 'slice':
            sel = slice(rnd.randint(0, self.n), rnd.randint(0, self.n), rnd.choice([1, 2]))
        elif u == 'mask':
            sel = np.array([rnd.random() < 0.6 for _ in range(self.n)])
        else:
            sel = [rnd.randrange(self.n) for _ in range(rnd.randint(1, 4))]
        ids = np.arange(self.n)[sel].tolist()
        if not ids:
            return
        st, s = call(lambda: self.s[sel])
        self.add({'op': 'subset', 'sel': ids}, st, s)
        if st == 'ok':
            self.s, self.n = s, len(ids)

    def move(self):
        rnd = self.rnd
        vs = [rnd.choice([[3, 0, 0], [0, -3, 0], [0, 0, 3], [1, 2, 2], [2, -1, 2], [-2, 2, 1]]) for _ in range(self.n)]
        coords = encode(np.array(vs, float), 'azimuth,elevation', True)
        names = ('ra', 'dec') if self.kind == 'E' else ('azimuth', 'elevation')

        def f():
            if rnd.random() < 0.3:
                self.s.spherical = coords
                self.assigned = True
                return
            for i, n in enumerate(names):
                setattr(self.s, n, coords[:, i])

        if self.assigned:
            return
        st, out = call(f)
        self.add({'op': 'move', 'vs': vs}, st, out)

    def attribute(self):
        name = self.rnd.choice(['spherical', 'cartesian', 'galactic'] + ['equatorial', 'equatorial'] * (self.kind == 'H'))
        st, x = call(lambda: getattr(self.s, name))
        obs = []
        if st == 'ok':
            x = np.asarray(x)
            if name != 'cartesian':
                x = decode(x, 'azimuth,elevation', True)
            x = 3 * x
            if name == 'galactic':
                x = from_frame(x, 'G')
            horiz = self.kind == 'H' and name in ('galactic', 'equatorial')
            obs = ints(x, 625 / 25 * 25 if horiz else 25, 0.1 if horiz else 2e-2) if x.shape == (self.n, 3) else [[NONINT]]
            if horiz:
                obs = ints(x, 25)
        self.add({'op': 'attribute', 'name': name, 'obs': obs}, st, x)

    def center(self):
        st, c = call(self.s.get_center)
        obs = []
        if st == 'ok' and np.shape(c) == (2,):
            # the direction, with the norm of the sum
            x = decode(np.asarray(c), 'azimuth,elevation', True)
            total = self.total()
            obs = ints(x * np.linalg.norm(total), 1)[0]
        self.add({'op': 'center', 'obs': obs}, st, c)

    def total(self):
        vs, mask = None, None
        for e in self.events:
            if e['op'] == 'sampling':
                vs, mask = e['vs'], e['mask']
            elif e['op'] == 'subset' and e['st'] == 'ok':
                vs, mask = [vs[i] for i in e['sel']], [mask[i] for i in e['sel']]
            elif e['op'] == 'move':
                vs = e['vs']
        return np.sum([v for v, m in zip(vs, mask) if not m], axis=0)

    def date(self):
        """Dates of a sampling."""
        rnd = self.rnd
        n = rnd.randint(1, 5)
        fmt = rnd.choice(['isot', 'jd', 'mjd', 'unix'])
        date = Time('2015-05-06T07:08:09.5', scale=rnd.choice(['utc', 'tai', 'tt']))
        date.format = fmt
        d = date if rnd.random() < 0.6 else date.reshape((1,))
        period = rnd.randint(1, 5)
        how = rnd.choice(['period', 'time'])
        kw = {'period': period} if how == 'period' else {'time': np.arange(n) * float(period)}
        st, s = call(lambda: Sampling(n, date_obs=d, **kw))
        e = {'op': 'date', 'index': list(range(n)), 'period': period, 'start': 1, 'times': []}
        if st == 'ok':
            if rnd.random() < 0.5 and n > 1:
                s = s[1:]
                e['index'] = e['index'][1:]
            e['start'] = near((s.date_obs - date).sec[0], 1000)
            e['times'] = [near(v, 1) for v in s.time]
        self.add(e, st, s)
