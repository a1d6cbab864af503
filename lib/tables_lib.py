"""Recording of histories of packed tables."""
import numpy as np
from enc import NAN, NONINT, call, cells, num

import pysimulators as ps
from pysimulators.packedtables import LayoutGrid, PackedTable, Sampling

NONE = 99999
KIND_NAMES = {
    'plain': ['index'],
    'grid': ['index', 'row', 'column', 'center'],
    'sampling': ['index', 'time'],
}


# -- selections ---------------------------------------------------------------
def none(x):
    return None if x == NONE else x


def py_slice(s):
    return slice(none(s['a']), none(s['b']), none(s['s']) if s.get('snone') else s['s'])


def py_sel(sel, shape=None):
    k = sel['k']
    if k == 'all':
        return {0: None, 1: Ellipsis, 2: (), 3: slice(None)}[sel.get('_form', 0)]
    if k == 'int':
        form = sel.get('_form', 0)
        if form == 1 and len(sel['v']) == 1:
            return sel['v'][0]
        if form == 2:
            return np.array(sel['v'], dtype=int)
        if form == 3 and len(sel['v']) > 0:
            return tuple(sel['v'])
        return list(sel['v'])
    if k == 'mask':
        m = np.array(sel['v'], bool)
        if shape is not None:
            m = m.reshape(shape)
        return m.tolist() if sel.get('_form', 0) == 1 and m.size else m
    if k == 'slice':
        return py_slice(sel)
    out = tuple(
        py_slice(_) if _['k'] == 'slice' else Ellipsis if _['k'] == 'all' else _['v']
        for _ in sel['v']
    )
    return out


def gen_slice(rnd, n):
    def bound():
        if rnd.random() < 0.25:
            return NONE
        if rnd.random() < 0.1:
            return rnd.choice([-n - 7, n + 9, -3 * n - 20, 4 * n + 11])
        return rnd.randint(-n - 2, n + 2)

    return {'k': 'slice', 'a': bound(), 'b': bound(),
            's': rnd.choice([1, 1, 1, 2, 3, -1, -1, -2, -3, n + 1, -n - 1])}


def gen_sel(rnd, shape, allow_dup=True, invalid=0.03, tuples=True):
    n = int(np.prod(shape))
    r = rnd.random()
    if r < invalid:
        kind = rnd.randrange(3)
        if kind == 0:
            return {'k': 'int', 'v': [rnd.choice([n, n + 3, -n - 1])]}
        if kind == 1 and n > 0:
            v = [rnd.randrange(n) for _ in range(2)] + [rnd.choice([n, -n - 1])]
            rnd.shuffle(v)
            return {'k': 'int', 'v': v}
        return {'k': 'slice', 'a': NONE, 'b': NONE, 's': 0}
    r = rnd.random()
    if r < 0.08:
        return {'k': 'all', '_form': rnd.randrange(4)}
    if r < 0.34:
        return gen_slice(rnd, n)
    if r < 0.56:
        return {'k': 'mask', 'v': [int(rnd.random() < p) for p in [rnd.random()] * n],
                '_form': rnd.randrange(2)}
    if r < 0.8 or not tuples or n == 0:
        if n == 0:
            return {'k': 'int', 'v': [], '_form': 0}
        m = rnd.choice([0, 1, 1, 2, rnd.randint(0, n), n])
        if allow_dup and rnd.random() < 0.25:
            v = [rnd.randrange(n) for _ in range(m)]
        elif rnd.random() < 0.4:
            # arithmetic progressions
            step = rnd.choice([1, 2, -1, -2, 3])
            start = rnd.randrange(n)
            v = [start + i * step for i in range(m) if 0 <= start + i * step < n]
        else:
            v = rnd.sample(range(n), min(m, n))
        if rnd.random() < 0.3:
            v = [i - n if rnd.random() < 0.5 else i for i in v]
        if not allow_dup:
            # -1 and n - 1 are the same component
            seen = set()
            v = [i for i in v if not (i % n in seen or seen.add(i % n))]
        return {'k': 'int', 'v': v, '_form': rnd.randrange(4)}
    # tuples: at least one slice (a tuple of integers is an integer selection)
    nd = len(shape)
    m = rnd.randint(1, nd)
    items = []
    for i in range(m):
        if rnd.random() < 0.7:
            items.append(gen_slice(rnd, shape[i]))
        else:
            items.append({'k': 'one', 'v': rnd.randint(-shape[i], shape[i] - 1)
                          if shape[i] else 0})
    if not any(_['k'] == 'slice' for _ in items):
        items[rnd.randrange(m)] = dict(gen_slice(rnd, 3))
    if rnd.random() < 0.2 and m < nd:
        # (..., last items)
        items = [
            it if it['k'] == 'slice' or abs(it['v']) < shape[nd - m + i] else
            {'k': 'one', 'v': 0}
            for i, it in enumerate(items)
        ]
        if any(s == 0 for s in shape):
            items = [it if it['k'] == 'slice' else gen_slice(rnd, 2) for it in items]
        items.insert(0, {'k': 'all'})
    elif any(s == 0 for s in shape):
        items = [it if it['k'] == 'slice' else gen_slice(rnd, 2) for it in items]
    return {'k': 'tuple', 'v': items}


def gen_ord(rnd, n):
    r = rnd.random()
    if r < 0.5:
        return []
    hi = rnd.choice([1, 2, n, 2 * n + 1])
    if r < 0.65:
        o = list(range(n))
        rnd.shuffle(o)
        return o
    if r < 0.75:
        return list(range(n))[::-1]
    pneg = rnd.choice([0, 0.2, 0.6, 1])
    return [-rnd.randint(1, 3) if rnd.random() < pneg else rnd.randint(0, max(hi, 1))
            for _ in range(n)]


# -- tables -------------------------------------------------------------------
class Recorder:
    """A history of operations on a few live tables, and their observable states."""

    def __init__(self, rnd, rng):
        self.rnd = rnd
        self.rng = rng
        self.tabs = []
        self.meta = []
        self.events = []

    # what is seen of a table through its public attributes
    def names(self, meta):
        out = KIND_NAMES[meta['kind']] + sorted(meta['attrs'])
        if 'val' in meta['attrs']:
            out = out + ['fun']
        return out

    def project(self, t, meta, full=True):
        p = {'attrs': {}, 'all': {}}
        s, v = call(len, t)
        p['len'] = v if s == 'ok' else NONINT
        nd = len(meta['shape'])
        for a in self.names(meta):
            s, v = call(lambda: cells(getattr(t, a)))
            p['attrs'][a] = v if s == 'ok' else [[NONINT], s]
            if full:
                s, v = call(lambda: self._all(t, a, nd, meta['shape']))
                p['all'][a] = v if s == 'ok' else [[NONINT], s]
        if full:
            s, v = call(lambda: [c[0] for c in self._all(t, 'removed', nd, meta['shape'])])
            p['removed'] = v if s == 'ok' else [NONINT]
        s, v = call(lambda: num(t.cst))
        p['cst'] = v if s == 'ok' else NONINT
        return p

    @staticmethod
    def _all(t, a, nd, shape):
        x = getattr(t.all, a)
        if tuple(x.shape[:nd]) != tuple(shape):
            return [[NONINT]]
        return cells(x, nd)

    def post(self, only=None):
        return [
            {'r': i + 1, 'p': self.project(t, m)}
            for i, (t, m) in enumerate(zip(self.tabs, self.meta))
            if only is None or i in only
        ]

    def put(self, dst, t, meta):
        if dst == len(self.tabs):
            self.tabs.append(t)
            self.meta.append(meta)
        else:
            self.tabs[dst] = t
            self.meta[dst] = meta

    def emit(self, e):
        self.events.append(e)

    # -- operations
    def values(self, name, n):
        rng = self.rng
        if name == 'val':
            x = rng.permutation(n) + 100
            return x.astype(float) if self.rnd.random() < 0.5 else x
        if name == 'vec':
            return rng.integers(-50, 50, (n, 2))
        if name == 'flag':
            return rng.random(n) < 0.5
        if name == 'qty':
            return ps.Quantity(rng.integers(0, 99, (n, 3)).astype(float), 'm')
        raise KeyError(name)

    def create(self, dst=None, shape=None, kind=None, sel=None, order=None, attrs=None,
               allow_dup=True, invalid=0.03):
        rnd = self.rnd
        if dst is None:
            dst = len(self.tabs)
        kind = kind or rnd.choice(['plain', 'plain', 'grid', 'sampling'])
        if shape is None:
            if kind == 'grid':
                shape = (rnd.randint(1, 4), rnd.randint(1, 4))
            elif kind == 'sampling':
                shape = (rnd.randint(1, 9),)
            else:
                shape = rnd.choice([
                    (rnd.randint(1, 10),), (rnd.randint(1, 4), rnd.randint(1, 4)),
                    (2, 1, 3), (2, 3, 2), (1, 2, 2), (3, 2, 2), (0,), (1,),
                ])
        n = int(np.prod(shape))
        if sel is None:
            sel = gen_sel(rnd, shape, allow_dup=allow_dup, invalid=invalid)
        if order is None:
            order = gen_ord(rnd, n)
        if attrs is None:
            attrs = [a for a in ('vec', 'flag', 'qty') if rnd.random() < 0.5] + ['val']
        extra = ()
        ndim = None
        kw = {}
        x = {}
        miss = {'index': -1, 'row': -1, 'column': -1}
        if kind == 'plain' and rnd.random() < 0.2 and not set(attrs) & {'vec', 'qty'}:
            # only the first dimensions are splittable
            ndim = len(shape)
            extra = rnd.choice([(2,), (1,), (2, 2)])
        for a in sorted(attrs):
            v = self.values(a, n)
            if extra and a == 'val':
                # the table shape includes dimensions that are not split
                k = int(np.prod(extra))
                v = (v[:, None] * 10 + np.arange(k)).reshape((n,) + extra)
            x[a] = cells(v)
            miss[a] = {'f': NAN, 'i': -1, 'b': 0}[v.dtype.kind]
            kw[a] = v.reshape(tuple(shape) + v.shape[1:])
        if 'val' in attrs:
            if extra:
                kw['fun'] = lambda s: (2 * s.val.reshape((len(s), k))[:, 0] + 1)
            else:
                kw['fun'] = lambda s: 2 * s.val + 1
            miss['fun'] = miss['val']
        cst = rnd.randint(-5, 5)
        kw['cst'] = cst
        par = {'miss': miss, 'cst': cst, 'start': 0, 'period': 1}
        if rnd.random() < 0.5:
            items = list(kw.items())
            rnd.shuffle(items)
            kw = dict(items)
        selection = py_sel(sel, shape)
        if selection is not None or rnd.random() < 0.5:
            kw['selection'] = selection
        if order:
            o = np.array(order).reshape(shape)
            kw['ordering'] = o.tolist() if rnd.random() < 0.5 else o
        if kind == 'grid':
            par['start'] = rnd.randint(0, 1)
            status, t = call(
                LayoutGrid, tuple(shape), 2, startswith1=bool(par['start']), **kw
            )
        elif kind == 'sampling':
            par['period'] = rnd.randint(1, 4)
            status, t = call(Sampling, shape[0], period=par['period'], **kw)
        else:
            sh = tuple(shape) + extra
            if len(sh) == 1 and rnd.random() < 0.5:
                sh = sh[0]
            status, t = call(PackedTable, sh, ndim=ndim, **kw)
        meta = {'kind': kind, 'shape': tuple(shape), 'attrs': sorted(attrs), 'par': par,
                'extra': extra, 'kw': kw}
        e = {'op': 'create', 'dst': dst + 1, 'shape': list(shape), 'sel': sel,
             'ord': list(order), 'x': x, 'kind': kind, 'par': par,
             'status': 'ok' if status == 'ok' else status, 'post': []}
        if status == 'ok':
            self.put(dst, t, meta)
            e['post'] = self.post()
        else:
            e['_message'] = t
        self.emit(e)
        return status == 'ok'

    def dims(self):
        """Number of dimensions which are not split, and attributes of right or wrong shapes."""
        rnd = self.rnd
        shape = [rnd.randint(0, 3) for _ in range(rnd.choice([1, 1, 2, 2, 3]))]
        nd = rnd.choice([None, None] + list(range(len(shape) + 2)))
        at = list(shape[:len(shape) if nd is None else nd])
        how = rnd.choice(['same', 'same', 'more', 'less', 'bad', 'swap', 'flat', 'one'])
        if how == 'more':
            at += [rnd.randint(0, 2)]
        elif how == 'less':
            at = at[:-1]
        elif how == 'bad' and at:
            at[rnd.randrange(len(at))] += 1
        elif how == 'swap':
            at = at[::-1]
        elif how == 'flat':
            at = [int(np.prod(at))]
        elif how == 'one' and at:
            at[rnd.randrange(len(at))] = 1
        if not at:
            at = [2]
        kw = {} if nd is None and rnd.random() < 0.5 else {'ndim': nd}
        status, t = call(PackedTable, tuple(shape), val=np.zeros(at), **kw)
        e = {'op': 'dims', 'shape': shape, 'nd': len(shape) if nd is None else nd, 'at': at, 'status': status,
             'len': -1, 'obs': []}
        if status == 'ok':
            e['len'], e['obs'] = len(t), list(np.shape(t.val))
        else:
            e['_message'] = t
        self.emit(e)

    def sub(self, src, dst, sel):
        t, meta = self.tabs[src], self.meta[src]
        status, u = call(lambda: t[py_sel(sel)])
        e = {'op': 'sub', 'src': src + 1, 'dst': dst + 1, 'sel': sel, 'status': status}
        if status == 'ok':
            self.put(dst, u, meta)
        else:
            e['_message'] = u
        e['post'] = self.post()
        self.emit(e)
        return status == 'ok'

    def copy(self, src, dst):
        t = self.tabs[src]
        status, u = call(t.copy)
        if status == 'ok':
            self.put(dst, u, self.meta[src])
        self.emit({'op': 'copy', 'src': src + 1, 'dst': dst + 1, 'status': status,
                   'post': self.post()})
        return status == 'ok'

    def split(self, src, m):
        t, meta = self.tabs[src], self.meta[src]
        status, parts = call(t.split, m)
        e = {'op': 'split', 'src': src + 1, 'm': m, 'status': status, 'parts': []}
        if status == 'ok':
            e['parts'] = [self.project(_, meta) for _ in parts]
        e['post'] = self.post()
        self.emit(e)

    def set(self, src, name, y):
        t = self.tabs[src]
        status, _ = call(setattr, t, name, y)
        self.emit({'op': 'set', 'src': src + 1, 'name': name, 'y': cells(y),
                   'status': status, 'post': self.post()})

    def fill(self, src, name, v):
        t = self.tabs[src]
        k = int(np.prod(getattr(t, name).shape[1:]))
        status, _ = call(setattr, t, name, v)
        self.emit({'op': 'fill', 'src': src + 1, 'name': name, 'v': [v] * k,
                   'status': status, 'post': self.post()})

    def setall(self, src, name, x):
        t = self.tabs[src]
        status, _ = call(setattr, t.all, name, x)
        nd = len(self.meta[src]['shape'])
        good = np.shape(x)[:nd] == self.meta[src]['shape']
        self.emit({'op': 'setall', 'src': src + 1, 'name': name,
                   'x': cells(x, nd) if good else [[0]] * (
                       int(np.prod(self.meta[src]['shape'])) + 1),
                   'status': status, 'post': self.post()})

    def pack(self, src, x, copy=False, out=None, good=True):
        t = self.tabs[src]
        nd = len(self.meta[src]['shape'])
        before = cells(x, nd) if good else [[0]] * (
            int(np.prod(self.meta[src]['shape'])) + 1)
        status, r = call(t.pack, x, out=out, copy=copy)
        e = {'op': 'pack', 'src': src + 1, 'x': before, 'copy': copy,
             'nout': -1 if out is None else out.shape[0], 'status': status}
        if status == 'ok':
            e['res'] = cells(r)
            e['after'] = cells(x, nd)
            e['sametype'] = (out is not None) or (
                type(r) is type(x) and r.dtype == x.dtype
                and getattr(r, 'unit', None) == getattr(x, 'unit', None)
                and r.shape[1:] == x.shape[nd:]
            )
            e['isout'] = out is None or r is out or (
                np.shares_memory(r, out) or out.size == 0
            )
            e['shares'] = bool(np.shares_memory(r, x)) if r.size else False
        e['post'] = self.post([src])
        self.emit(e)

    def unpack(self, src, y, copy=False, out=None, missing=None):
        t = self.tabs[src]
        nd = len(self.meta[src]['shape'])
        before = cells(y)
        k = len(before[0]) if before else int(np.prod(y.shape[1:]))
        status, r = call(t.unpack, y, out=out, copy=copy, missing_value=missing)
        m = {'f': NAN, 'i': -1, 'b': 0, 'u': 0}[y.dtype.kind] if missing is None else missing
        nout = -1
        if out is not None:
            nout = (int(np.prod(out.shape[:nd]))
                    if out.shape[:nd] == self.meta[src]['shape'] else -2)
        e = {'op': 'unpack', 'src': src + 1, 'y': before, 'copy': copy, 'nout': nout,
             'missing': [m] * k, 'status': status}
        if status == 'ok':
            e['res'] = (cells(r, nd) if r.shape[:nd] == self.meta[src]['shape']
                        else [[NONINT]])
            e['after'] = cells(y)
            e['sametype'] = (out is not None) or (
                type(r) is type(y) and r.dtype == y.dtype
                and getattr(r, 'unit', None) == getattr(y, 'unit', None)
                and r.shape[nd:] == y.shape[1:]
            )
            e['isout'] = out is None or r is out or (
                np.shares_memory(r, out) or out.size == 0
            )
            e['shares'] = bool(np.shares_memory(r, y)) if r.size else False
        e['post'] = self.post([src])
        self.emit(e)


# -- exhaustive replay of the transitions of MCTables ---------------------------
def mc_cfg(shapes, bound, steps, maxints, ordmax, maxdepth, nsplit):
    def tlaset(x):
        return '{' + ', '.join(str(_) for _ in x) + '}'

    ids = [s[0] if len(s) == 1 else 100 * s[0] + s[1] for s in shapes]
    return (
        'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n'
        f'CONSTANTS\n ShapeIds = {tlaset(ids)}\n Bound = {bound}\n'
        f' MaxInts = {maxints}\n MaxDepth = {maxdepth}\n'
        f' NSplit = {nsplit}\n OrdMax = {ordmax}\n'
        f' StepIds = {tlaset(s if s > 0 else 10 - s for s in steps)}\n'
        'INVARIANTS InvWellFormed InvAligned InvRoundTrip InvSplit\n'
        'PROPERTIES PropSubset\n'
    )


def observe(t):
    return [int(_) for _ in t.index], [num(_) for _ in np.asarray(t.val)], len(t)


def replay_transitions(ctx, result):
    """Execute every transition of the model on the real tables."""
    live = {}
    n = 0
    pending = sorted(result.messages, key=lambda m: m['op'] != 'create')
    # breadth first: a transition is replayed once its source has been reached
    while pending:
        later = []
        for m in pending:
            shape = tuple(m['shape'])
            if m['op'] == 'create':
                size = int(np.prod(shape))
                kw = {'val': (100 + np.arange(size)).reshape(shape)}
                if m['ord']:
                    kw['ordering'] = np.array(m['ord']).reshape(shape)
                status, t = call(
                    PackedTable, shape, selection=py_sel(m['sel'], shape), **kw
                )
            else:
                src = live.get((shape, tuple(m['pre'])))
                if src is None:
                    later.append(m)
                    continue
                if m['op'] == 'sub':
                    status, t = call(lambda: src[py_sel(m['sel'])])
                else:
                    status, t = call(lambda: src.split(m['m'])[m['r']])
            n += 1
            if not m['valid']:
                bad = ['invalid-accepted'] if status == 'ok' else []
                seen = status
            elif status != 'ok':
                bad, seen = [m['op'] + '-raises'], [status, t]
            else:
                st, seen = call(observe, t)
                expected = m['post'], [100 + _ for _ in m['post']], len(m['post'])
                bad = [] if st == 'ok' and seen == expected else [m['op'] + '-table']
                if m['op'] == 'sub' and not bad:
                    st, s2 = call(observe, src)
                    expected = m['pre'], [100 + _ for _ in m['pre']], len(m['pre'])
                    if st != 'ok' or s2 != expected:
                        bad, seen = ['source-altered'], s2
                if not bad:
                    live.setdefault((shape, tuple(m['post'])), t)
            if bad:
                ctx.report(bad, f'MCTables transition {m} observed {seen}',
                           {'spec': 'MCTables', 'transition': m, 'observed': str(seen)})
        if len(later) == len(pending):
            if not ctx.violations:
                raise RuntimeError('unreachable transitions')
            break
        pending = later
    ctx.coverage['model_transitions_replayed'] += n
    ctx.coverage['traces_validated_against_impl'] += n
    if result.messages:
        ctx.coverage['samples'].append(
            {'spec': 'MCTables', 'transition': ctx.rnd.choice(result.messages)})
    return n
