"""Quantities: encoding of units, recording of histories."""
import copy
import math
import pickle
import re

import numpy as np
from enc import NONINT, call, near
from pysimulators import Quantity

K = 12
BASES = ['A', 'cd', 'K', 'kg', 'm', 'mol', 's', 'sr', '?', 'beam', 'detector']
DERIVED = ['uJy', 'mJy', 'Jy', 'MJy', 'N', 'Hz', 'J', 'AU', 'km', 'mm', 'um', 'pc', 'W', 'atm',
           'bar', 'mmHg', 'cmHg', 'Pa', 'Torr', 'Ohm', 'ms', 'us', 'C', 'V']
ANGLES = ['rad', 'deg', 'arcmin', 'arcsec']
FAMILIES = [
    ['m', 'km', 'mm', 'um', 'AU', 'pc'], ['s', 'ms', 'us'], ['J'], ['Pa', 'bar', 'atm',
    'mmHg', 'cmHg', 'Torr'], ['Jy', 'uJy', 'mJy', 'MJy'],
]
_TOKEN = re.compile(r'\s*([/*])?\s*([A-Za-z_"\'?]+)(?:\^([-+0-9.eE]+))?\s*')


def tokens(s):
    """The tokens of a printed unit (read independently of the package)."""
    out, pos = [], 0
    s = s.strip()
    while pos < len(s):
        m = _TOKEN.match(s, pos)
        if not m or m.end() == pos:
            return [{'op': '*', 'n': '<unreadable>', 'e': 0}]
        e = near(m.group(3) or 1, K, 1e-4)
        out.append({'op': m.group(1) or '*', 'n': m.group(2), 'e': e})
        pos = m.end()
    return out


def exponents(toks):
    out = {}
    for t in toks:
        out[t['n']] = out.get(t['n'], 0) + (-t['e'] if t['op'] == '/' else t['e'])
    return {k: v for k, v in out.items() if v}


def strexp(e):
    if e % K == 0:
        return str(e // K)
    return repr(e / K)


def string(toks, rnd=None):
    """One of the ways of writing a unit."""
    out = ''
    for i, t in enumerate(toks):
        if t['op'] == '/':
            sep = rnd.choice([' / ', '/', ' /', '/ ']) if rnd else ' / '
        elif i == 0:
            sep = ''
        else:
            sep = rnd.choice([' ', ' * ', '*', '  ']) if rnd else ' '
        exp = '' if t['e'] == K and not (rnd and rnd.random() < 0.2) else '^' + strexp(t['e'])
        out += sep + t['n'] + exp
    if rnd and rnd.random() < 0.1:
        out = ' ' + out + ' '
    return out


def angle_ok(toks):
    """At most one angle, to the power 1 or 2 (and its inverse)."""
    found = [(n, abs(e)) for n, e in exponents(toks).items() if n in ANGLES]
    return not found or len(found) == 1 and found[0][1] in (K, 2 * K)


def extent(toks, local=None):
    """A bound of the decimal logarithm of the factor of a unit in SI (and of its inverse)."""
    out = 0
    for n, e in exponents(toks).items():
        w = 33 if n.endswith('Jy') else 17
        if local and n in local:
            w = 5 + extent(tokens(local[n].unit))
        out += abs(e) / K * w
    return out


def logs(x):
    out = []
    for v in np.asarray(x, float).ravel().tolist():
        out.append(round(1e5 * math.log(abs(v))) if v and math.isfinite(v) else NONINT)
    return out


def signs(x):
    return [int(np.sign(v)) if v == v else NONINT for v in np.asarray(x, float).ravel().tolist()]


def plain(q):
    return np.asarray(q.view(np.ndarray) if isinstance(q, np.ndarray) else q)


def observe(q):
    if not isinstance(q, Quantity):
        return {'toks': [{'op': '*', 'n': '<not a quantity>', 'e': 0}], 'shape': list(np.shape(q)),
                'sg': signs(q), 'L': logs(q), 'loc': []}
    loc = []
    for name, v in q.derived_units.items():
        d = ''
        if '[' in name:
            name, d = name[:-1].split('[')
        loc.append({'n': name, 'dir': d, 'L': logs(plain(v)), 'toks': tokens(v.unit)})
    return {'toks': tokens(q.unit), 'shape': list(q.shape), 'sg': signs(plain(q)),
            'L': logs(plain(q)), 'loc': loc}


class Recorder:
    p_local = 0.35      # quantities with derived units
    p_again = 0.4       # the same units again

    def __init__(self, rnd):
        self.rnd = rnd
        self.regs = []
        self.events = []
        self.created = []     # (shape, derived units, tokens) to be used again
        self.targets = []     # tokens of the conversions

    def emit(self, e, status, msg=''):
        e['status'] = status
        e['_msg'] = str(msg)[:200] if status != 'ok' else ''
        e['post'] = []
        for q in self.regs:
            st, o = call(observe, q)
            e['post'].append(o if st == 'ok' else {
                'toks': [{'op': '*', 'n': '<unreadable>', 'e': 0}], 'shape': [], 'sg': [],
                'L': [], 'loc': []})
        self.events.append(e)
        return status == 'ok' and all(isinstance(q, Quantity) for q in self.regs)

    def dst(self):
        return self.rnd.randrange(min(len(self.regs) + 1, 4))

    def put(self, dst, q):
        if dst == len(self.regs):
            self.regs.append(q)
        else:
            self.regs[dst] = q

    def names(self, local=()):
        rnd = self.rnd
        r = rnd.random()
        if local and r < 0.5:
            return rnd.choice(local)
        if r < 0.4:
            return rnd.choice(rnd.choice(FAMILIES))
        return rnd.choice(BASES + DERIVED)

    def unit(self, local=()):
        rnd = self.rnd
        out = []
        for _ in range(rnd.choice([0, 1, 1, 2, 2, 3])):
            e = rnd.choice([K] * 6 + [2 * K, 2 * K, -K, 3 * K, 6, 3, 0, -2 * K])
            out.append({'op': rnd.choice('**/'), 'n': self.names(local), 'e': e})
        if rnd.random() < 0.15:
            out.append({'op': rnd.choice('*/'), 'n': rnd.choice(ANGLES), 'e': rnd.choice([K, 2 * K])})
            if rnd.random() < 0.3:
                out = out[-1:]
        rnd.shuffle(out)
        return out

    def similar(self, q):
        """A unit which is probably compatible with that of q."""
        rnd = self.rnd
        toks = tokens(q.unit)
        loc = {k.split('[')[0]: v for k, v in q.derived_units.items()}
        out = []
        for t in toks:
            fam = [f for f in FAMILIES if t['n'] in f]
            if t['n'] in ANGLES and rnd.random() < 0.7:
                if t['e'] in (2 * K, -2 * K) and rnd.random() < 0.3:
                    t = {'op': t['op'], 'n': 'sr', 'e': t['e'] // 2}
                else:
                    t = {**t, 'n': rnd.choice(ANGLES)}
            elif fam:
                t = {**t, 'n': rnd.choice(fam[0])}
            elif t['n'] in loc:
                if rnd.random() < 0.7:
                    for t2 in tokens(loc[t['n']].unit):
                        e = t2['e'] * t['e'] // K
                        out.append({'op': t['op'] if t2['op'] == '*' else '*/'[t['op'] == '*'],
                                    'n': t2['n'], 'e': e})
                    continue
            elif t['n'] == 'N' and rnd.random() < 0.5:
                out.append({**t, 'n': 'J'})
                t = {'op': '/*'[t['op'] == '/'], 'n': rnd.choice(FAMILIES[0]), 'e': t['e']}
            elif t['n'] == 'W' and rnd.random() < 0.5:
                out.append({**t, 'n': 'J'})
                t = {'op': '/*'[t['op'] == '/'], 'n': rnd.choice(FAMILIES[1]), 'e': t['e']}
            elif t['n'] == 'Hz' and rnd.random() < 0.5:
                t = {'op': '/*'[t['op'] == '/'], 'n': rnd.choice(FAMILIES[1]), 'e': t['e']}
            elif t['n'] == 'C':
                out.append({**t, 'n': 'A'})
                t = {**t, 'n': 's'}
            elif t['n'] == 'Ohm':
                out.append({**t, 'n': 'V'})
                t = {'op': '/*'[t['op'] == '/'], 'n': 'A', 'e': t['e']}
            out.append(t)
        rnd.shuffle(out)
        if rnd.random() < 0.1:
            return self.unit()
        return out

    def values(self, shape):
        rnd = self.rnd
        n = int(np.prod(shape, dtype=int))
        v = [rnd.choice([-1, 1, 1]) * rnd.choice([1, 2, 3, 5, 0.25, 10, 7.5, 1e-3, 1e4])
             for _ in range(n)]
        return np.array(v, float).reshape(shape)

    def create(self, dst):
        rnd = self.rnd
        shape = rnd.choice([(), (), (2,), (3,), (2, 3), (3, 2), (2, 2)])
        loc, du = [], {}
        if rnd.random() < self.p_local:
            for name in rnd.sample(['ua', 'ub', 'uc', 'beam', 'Torr'], rnd.choice([1, 2])):
                d = rnd.choice(['', 'leftward', 'rightward']) if shape else ''
                if d:
                    v = np.abs(self.values((shape[-1] if d == 'leftward' else shape[0],)))
                else:
                    v = np.abs(self.values(()))
                toks = [t for t in self.unit() if t['n'] not in ANGLES + ['beam', 'Torr'] and t['e'] % K == 0]
                if not exponents(toks):
                    toks = [{'op': '*', 'n': 'km', 'e': K}]
                du[name + (f'[{d}]' if d else '')] = Quantity(v, string(toks))
                loc.append({'n': name, 'dir': d, 'L': logs(v), 'toks': toks})
        local = [_['n'] for _ in loc]
        toks = self.unit(local)
        v = self.values(shape)
        if self.created and rnd.random() < self.p_again:
            # the same unit and names of derived units, with other values
            shape, loc, toks = rnd.choice(self.created)
            v = self.values(shape)
            du, loc = {}, [dict(_) for _ in loc]
            for d in loc:
                n = {'': (), 'leftward': shape[-1:], 'rightward': shape[:1]}[d['dir']]
                w = np.abs(self.values(n))
                d['L'] = logs(w)
                name = d['n'] + ('[' + d['dir'] + ']' if d['dir'] else '')
                du[name] = Quantity(w, string(d['toks']))
        else:
            self.created.append((shape, loc, toks))
        how = rnd.choice(['new', 'new', 'set', 'ones', 'view'])

        def do():
            s = string(toks, rnd)
            if how == 'new':
                return Quantity(v, s, derived_units=du or None)
            if how == 'ones':
                q = Quantity.ones(shape, unit=s, derived_units=du or None)
                q.magnitude = v
                return q
            if how == 'view':
                q = Quantity(Quantity(v), unit=s, derived_units=du or None)
                return q
            q = Quantity(v)
            q.unit = s
            if du:
                q.derived_units = du
            return q

        status, q = call(do)
        if status == 'ok':
            self.put(dst, q)
        return self.emit({'op': 'create', 'dst': dst + 1, 'toks': toks, 'sg': signs(v),
                          'L': logs(v), 'shape': list(shape), 'loc': loc}, status, q)

    def small(self, q):
        return all(abs(e) <= 36 for e in exponents(tokens(q.unit)).values())

    def binary(self, a, b, dst):
        rnd = self.rnd
        x, y = self.regs[a], self.regs[b]
        if not (x.shape == y.shape or x.shape == () or y.shape == ()):
            return True
        if y.derived_units and (not x.derived_units or x is not y):
            return True
        if x.shape != y.shape and x.shape == () and x.derived_units:
            return True
        if not self.small(x) or not self.small(y):
            return True
        op = rnd.choice(['mul', 'div'])
        how = rnd.choice(['op', 'op', 'ufunc', 'inplace'])
        if how == 'inplace' and x.shape == () and y.shape != ():
            how = 'op'
        if how == 'inplace':
            dst = a

        def do():
            if how == 'inplace':
                r = x.copy()
                if op == 'mul':
                    r *= y
                else:
                    r /= y
                return r
            if how == 'ufunc':
                return np.multiply(x, y) if op == 'mul' else np.divide(x, y)
            return x * y if op == 'mul' else x / y

        status, q = call(do)
        if status == 'ok':
            self.put(dst, q)
        return self.emit({'op': op, 'a': a + 1, 'b': b + 1, 'dst': dst + 1, '_how': how}, status, q)

    def plain(self, a, dst):
        rnd = self.rnd
        x = self.regs[a]
        shape = rnd.choice([(), x.shape])
        v = self.values(shape)
        c = v if shape else rnd.choice([float(v), v])
        how = rnd.choice(['mul', 'rmul', 'div', 'rdiv'])
        f = {'mul': lambda: x * c, 'rmul': lambda: c * x, 'div': lambda: x / c,
             'rdiv': lambda: c / x}[how]
        status, q = call(f)
        if status == 'ok':
            self.put(dst, q)
        return self.emit({'op': 'plain', 'a': a + 1, 'dst': dst + 1, 'sg': signs(v), 'L': logs(v),
                          'shape': list(shape), 'how': {'rmul': 'mul'}.get(how, how)}, status, q)

    def power(self, a, dst):
        rnd = self.rnd
        x = self.regs[a]
        if not self.small(x):
            return True
        k = rnd.choice([-24, -12, 0, 12, 24, 36, 6, 4])
        ex = exponents(tokens(x.unit))
        if any(e * k % (3 * K) if k == 4 else e * k % K for e in ex.values()):   # no third: they are rounded
            k = 24
        if k in (6, 4) and (np.any(plain(x) < 0)):
            k = -12
        p = k / K if k % K else k // K
        fs = [lambda: x ** p, lambda: np.power(x, p), lambda: x ** float(p), lambda: pow(x, p)]
        fs += {-12: [lambda: np.reciprocal(x), lambda: 1 / x], 24: [lambda: np.square(x)],
               6: [lambda: np.sqrt(x)] * 3, 4: [lambda: np.cbrt(x)] * 3}.get(k, [])
        if p < 0:
            fs = [f for f in fs if True]
        status, q = call(rnd.choice(fs))
        if status == 'ok':
            self.put(dst, q)
        return self.emit({'op': 'pow', 'a': a + 1, 'k': k, 'dst': dst + 1}, status, q)

    def unary(self, a, dst):
        rnd = self.rnd
        x = self.regs[a]
        op, f = rnd.choice([
            ('neg', lambda: -x), ('abs', lambda: abs(x)), ('abs', lambda: np.fabs(x)),
            ('same', lambda: +x), ('same', lambda: x.copy()), ('same', lambda: copy.deepcopy(x)),
            ('same', lambda: copy.copy(x)), ('same', lambda: Quantity(x)),
            ('same', lambda: pickle.loads(pickle.dumps(x))), ('same', lambda: Quantity(x, copy=True)),
            ('same', lambda: np.conjugate(x)),
        ])
        status, q = call(f)
        if status == 'ok':
            self.put(dst, q)
        return self.emit({'op': op, 'a': a + 1, 'dst': dst + 1}, status, q)

    def convert(self, a, dst):
        rnd = self.rnd
        x = self.regs[a]
        if not angle_ok(tokens(x.unit)) or extent(
                tokens(x.unit), {k.split('[')[0]: v for k, v in x.derived_units.items()}) > 280:
            return True
        r = rnd.random()
        if r < 0.2:
            status, q = call(lambda: x.SI.copy())
            if status == 'ok':
                self.put(dst, q)
            return self.emit({'op': 'SI', 'a': a + 1, 'dst': dst + 1}, status, q)
        toks = self.similar(x)
        if self.targets and rnd.random() < self.p_again:
            toks = rnd.choice(self.targets)
        else:
            self.targets.append(toks)
        if not angle_ok(toks):
            return True
        local = {k.split('[')[0]: v for k, v in x.derived_units.items()}
        if extent(toks, local) > 280:
            return True
        s = string(toks, rnd)
        if r < 0.3:
            status, q = call(setattr, x, 'unit', s)
            return self.emit({'op': 'setunit', 'a': a + 1, 'toks': toks}, status, q)
        if r < 0.6:
            status, q = call(x.inunit, s)
            op = 'inunit'
        else:
            op = 'tounit'
            status, q = call(x.tounit, s)
            if status == 'ok':
                self.put(dst, q)
        return self.emit({'op': op, 'a': a + 1, 'dst': dst + 1, 'toks': toks},
                         status, q) or all(isinstance(q, Quantity) for q in self.regs)

    def index(self, a, dst):
        rnd = self.rnd
        x = self.regs[a]
        if x.ndim == 0:
            return True
        while True:
            key, pos = [], []
            for n in x.shape:
                r = rnd.random()
                if r < 0.35:
                    k = rnd.randrange(-n, n)
                elif r < 0.85:
                    k = rnd.choice([slice(None), slice(1, None), slice(None, None, -1),
                                    slice(None, -1), slice(0, n)])
                else:
                    k = [rnd.randrange(n) for _ in range(rnd.randint(1, 2))]
                    if rnd.random() < 0.4:
                        k = np.array(k)
                key.append(k)
                p = np.arange(n)[k]
                pos.append({'int': bool(np.ndim(p) == 0), 'p': [int(_) for _ in np.ravel(p)]})
            if sum(isinstance(k, (list, np.ndarray)) for k in key) > 1:
                continue
            if any(isinstance(k, (list, np.ndarray)) for k in key) and any(
                    isinstance(k, int) for k in key):
                continue
            if all(p['int'] for p in pos) or any(len(p['p']) == 0 for p in pos):
                continue
            break
        full = key
        key = tuple(key)
        if len(key) == 2 and isinstance(full[1], slice) and full[1] == slice(None):
            key = rnd.choice([key, key[:1], (key[0], Ellipsis)])
        elif len(key) == 2 and isinstance(full[0], slice) and full[0] == slice(None):
            key = rnd.choice([key, (Ellipsis, key[1])])
        if len(key) == 1:
            key = rnd.choice([key, key[0]])
        status, q = call(lambda: x[key].copy())
        if status == 'ok':
            self.put(dst, q)
        return self.emit({'op': 'index', 'a': a + 1, 'dst': dst + 1, 'key': pos,
                          '_key': str(key)}, status, q)
