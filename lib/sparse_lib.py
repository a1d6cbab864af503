"""Sparse matrices and operators: construction, recording and replay."""
import operator

import numpy as np
import pyoperators
from enc import NONINT, call, num
from pysimulators import ProjectionOperator
from pysimulators.sparse import (
    FSCBlockMatrix, FSCMatrix, FSCRotation2dMatrix, FSCRotation3dMatrix,
    FSRBlockMatrix, FSRMatrix, FSRRotation2dMatrix, FSRRotation3dMatrix,
    SparseOperator,
)

GENS = ('scalar', 'block', 'rot2d', 'rot3d')
CLASSES = {
    ('fsr', 'scalar'): FSRMatrix, ('fsc', 'scalar'): FSCMatrix,
    ('fsr', 'block'): FSRBlockMatrix, ('fsc', 'block'): FSCBlockMatrix,
    ('fsr', 'rot2d'): FSRRotation2dMatrix, ('fsc', 'rot2d'): FSCRotation2dMatrix,
    ('fsr', 'rot3d'): FSRRotation3dMatrix, ('fsc', 'rot3d'): FSCRotation3dMatrix,
}
SIGNED = ('int8', 'int16', 'int32', 'int64')
UNSIGNED = ('uint8', 'uint16', 'uint32', 'uint64')
PYTHAGORAS = [(0, 0), (0, 1), (2, 0), (3, 4), (4, 3), (0, 3), (1, 0), (5, 12), (-3, 4)]


def nz(d):
    return [[num(x) for x in row] for row in np.asarray(d).tolist()]


def fill(matrix, m, gen):
    """Fill the storage of the matrix with the entries of the specification."""
    if matrix.data.size == 0:
        return
    data = matrix.data.reshape((int(np.prod(matrix.data.shape[:-1])), matrix.data.shape[-1]))
    for a, line in enumerate(m['ent']):
        for b, e in enumerate(line):
            data['index'][a, b] = e['i']
            set_value(data, a, b, e['v'], m['k'], gen)


def set_value(data, a, b, v, k, gen):
    v = np.array(v)
    if gen == 'scalar':
        data['value'][a, b] = v[0, 0]
    elif gen == 'block':
        data['value'][a, b] = v.T if k == 'fsc' else v
    else:
        if k == 'fsc':
            v = v.T
        if gen == 'rot2d':
            data['r11'][a, b], data['r21'][a, b] = v[0, 0], v[1, 0]
        else:
            data['r11'][a, b] = v[0, 0]
            data['r22'][a, b], data['r32'][a, b] = v[1, 1], v[2, 1]


def build(m, gen, itype='int32', ftype='float64', how='alloc', dims=None):
    cls = CLASSES[m['k'], gen]
    shape = m['nr'] * m['p'], m['nc'] * m['q']
    nmax = len(m['ent'][0])
    kmax = {'fsr': 'ncolmax', 'fsc': 'nrowmax'}[m['k']]
    kw = {'block_shape': (m['p'], m['q'])} if gen == 'block' else {}
    if how == 'alloc':
        out = cls(shape, dtype=np.dtype(ftype), dtype_index=np.dtype(itype),
                  **{kmax: nmax}, **kw)
    else:
        tmp = {'scalar': [('value', ftype)], 'rot2d': [('r11', ftype), ('r21', ftype)],
               'rot3d': [('r11', ftype), ('r22', ftype), ('r32', ftype)],
               'block': [('value', ftype,
                          (m['p'], m['q']) if m['k'] == 'fsr' else (m['q'], m['p']))]}[gen]
        data = np.zeros((dims or (len(m['ent']),)) + (nmax,), [('index', itype)] + tmp)
        out = cls(shape, data=data, **({kmax: nmax} if how == 'datamax' else {}))
    fill(out, m, gen)
    return out


def dense(matrix):
    """The dense form, from the canonical basis or todense."""
    kw = {}
    if isinstance(matrix, (FSRMatrix, FSCMatrix)):
        kw['shapein'] = matrix.shape[1]
    return nz(SparseOperator(matrix, **kw).todense())


def gen_block(rnd, p, q, gen, k, positive=False):
    lo = 0 if positive else -4
    if gen == 'rot2d':
        r11, r21 = rnd.choice(PYTHAGORAS)
        v = [[r11, -r21], [r21, r11]]
    elif gen == 'rot3d':
        r11, r22, r32 = (rnd.randint(lo, 4) for _ in range(3))
        v = [[r11, 0, 0], [0, r22, -r32], [0, r32, r22]]
    else:
        v = [[rnd.randint(lo, 4) for _ in range(q)] for _ in range(p)]
        if rnd.random() < 0.15:
            v = [[0] * q for _ in range(p)]
        return v
    if k == 'fsc':
        v = [list(r) for r in zip(*v)]
    return v


def gen_matrix(rnd, k=None, gen=None, big=False, unsigned=False, nmax=None):
    gen = gen or rnd.choice(GENS)
    k = k or rnd.choice(['fsr', 'fsc'])
    p, q = {'scalar': (1, 1), 'rot2d': (2, 2), 'rot3d': (3, 3), 'block': None}[gen] or (
        rnd.choice([(1, 2), (1, 3), (2, 1), (2, 2), (2, 3), (3, 1), (3, 2), (3, 3)]))
    n, nother = rnd.randint(1, 5), rnd.randint(1, 5)
    if big:
        n, nother = 600, rnd.randint(1, 2)
    nmax = rnd.choice([0, 1, 1, 1, 2, 2, 2, 3, 3, 3]) if nmax is None else nmax
    empty = 0 if unsigned else rnd.choice([0, 0.2, 0.5])
    ent = [
        [{'i': rnd.choice([-1, -1, -2, -7]) if rnd.random() < empty else rnd.randrange(nother),
          'v': gen_block(rnd, p, q, gen, k)} for _ in range(nmax)]
        for _ in range(n)
    ]
    nr, nc = (n, nother) if k == 'fsr' else (nother, n)
    return gen, {'k': k, 'p': p, 'q': q, 'nr': nr, 'nc': nc, 'ent': ent}


def spread(rnd, a):
    """An output buffer, which may be strided."""
    if rnd.random() < 0.75:
        return a.copy()
    big = np.zeros(2 * a.size, a.dtype)
    big[::2] = a
    return big[::2]


class Recorder:
    """Registers of matrices and operators whose operations are recorded."""

    def __init__(self, rnd, rng):
        self.rnd, self.rng = rnd, rng
        self.events = []
        self.regs = []       # dict(matrix, gen, m (shapes only), itype, ftype)
        self.light = False   # no dense form: large matrices

    def emit(self, e, status='ok'):
        e['status'] = status
        e['post'] = []
        if not self.light:
            for r, x in enumerate(self.regs):
                st, d = call(dense, x['matrix'])
                e['post'].append({'r': r + 1, 'd': d if st == 'ok' else [[NONINT]]})
        self.events.append(e)
        return status == 'ok'

    def put(self, dst, x):
        if dst == len(self.regs):
            self.regs.append(x)
        else:
            self.regs[dst] = x

    def dst(self):
        return self.rnd.randrange(min(len(self.regs) + 1, 3))

    def create(self, dst, k=None, gen=None, big=False, itypes=SIGNED + UNSIGNED, dims=False,
               nmax=None):
        rnd = self.rnd
        itype = rnd.choice(itypes)
        if big:
            itype = rnd.choice(('int32', 'int64'))
        ftype = rnd.choice(['float32', 'float64'])
        if gen is None and itype in UNSIGNED:
            gen = 'scalar'
        gen, m = gen_matrix(rnd, k, gen, big, itype in UNSIGNED, nmax)
        how = rnd.choice(['alloc', 'data', 'datamax'])
        d = None
        n = len(m['ent'])
        if dims and how != 'alloc' and n % 2 == 0 and rnd.random() < 0.7:
            d = (2, n // 2)
        status, x = call(build, m, gen, itype, ftype, how, d)
        if status == 'ok':
            self.put(dst, {'matrix': x, 'gen': gen, 'itype': itype, 'ftype': ftype, 'k': m['k']})
        else:
            self._message = x
        return self.emit({'op': 'create', 'dst': dst + 1, 'm': m,
                          '_types': [itype, ftype, how, gen]}, status)

    def operator(self, src, cls=SparseOperator, shapes=False):
        x = self.regs[src]
        M = x['matrix']
        kw = {}
        if shapes and isinstance(M, (FSRMatrix, FSCMatrix)):
            kw['shapein'] = M.shape[1]
        return cls(M, **kw)

    def array(self, n, e, dtype):
        x = self.rng.integers(-4, 5, (n, e)).astype(dtype)
        return x

    def apply(self, src, repeat=1):
        """A product, through one of the public ways."""
        rnd = self.rnd
        x = self.regs[src]
        M = x['matrix']
        simple = isinstance(M, (FSRMatrix, FSCMatrix))
        tr = rnd.random() < 0.4
        nrow, ncol = M.shape if not tr else M.shape[::-1]
        bs = M.block_shape if not tr else M.block_shape[::-1]
        how = rnd.choice(['mul', 'op', 'out', 'iadd', 'op', 'out', 'strided'])
        e = 1
        if simple and how != 'mul' and rnd.random() < 0.4:
            e = rnd.choice([2, 3])
        dtype = rnd.choice(['float32', 'float64', 'float64', 'int32'])
        v = self.array(ncol, e, dtype)
        before = nz(v)
        ftype = np.result_type(x['ftype'], np.dtype(dtype))
        out0 = self.array(nrow, e, ftype)
        if e > 1:
            inp = v
            oshape = (nrow, e)
        else:
            inp = v.ravel() if simple or bs[1] == 1 else v.reshape((-1, bs[1]))
            oshape = (nrow,) if simple or bs[0] == 1 else (nrow // bs[0], bs[0])
        if how == 'strided':
            big = np.zeros((2 * inp.shape[0],) + inp.shape[1:], inp.dtype)
            big[::2] = inp
            inp = big[::2]
        elif rnd.random() < 0.3:
            inp = np.asfortranarray(inp)
        out = out0.reshape(oshape).copy()
        shape = []

        def do():
            if how == 'mul':
                r = (inp.ravel() * M) if tr else (M * inp.ravel())
                shape.append(r.shape == (nrow,))
                return r.reshape((nrow, 1))
            op = self.operator(src)
            if tr:
                op = op.T
            if how in ('op', 'strided'):
                r = op(inp)
            elif how == 'out':
                r = out.copy()
                r2 = op(inp, out=r)
                shape.append(r2 is r or np.shares_memory(r2, r))
            else:
                r = out.copy()
                op(inp, out=r, operation=operator.iadd)
            shape.append(r.shape == oshape)
            return r.reshape((nrow, e))

        status, res = call(do)
        results = []
        if status == 'ok':
            results = [nz(res)]
            for _ in range(repeat - 1):
                r = nz(do())
                if r not in results:
                    results.append(r)
        else:
            self._message = res
        return self.emit({
            'op': 'apply', 'src': src + 1, 'tr': tr, 'iadd': how == 'iadd',
            'x': before, 'out0': nz(out0), 'res': results, 'after': nz(inp.reshape((ncol, e))),
            'shape': all(shape), '_how': how, '_dtypes': [x['ftype'], dtype], '_msg': str(
                res)[:200] if status != 'ok' else '',
        }, status)

    def scale(self, src, dst):
        c = self.rnd.choice([-2, 0, 1, 3])
        M = self.regs[src]['matrix']
        status, r = call((lambda: M * c) if self.rnd.random() < 0.5 else (lambda: c * M))
        if status == 'ok':
            self.put(dst, {**self.regs[src], 'matrix': r})
        return self.emit({'op': 'scale', 'src': src + 1, 'dst': dst + 1, 'c': c}, status)

    def copy(self, src, dst):
        status, r = call(self.regs[src]['matrix'].copy)
        if status == 'ok':
            self.put(dst, {**self.regs[src], 'matrix': r})
        return self.emit({'op': 'copy', 'src': src + 1, 'dst': dst + 1}, status)

    def setentry(self, src):
        """Change an entry of the matrix; the independent matrices are not changed."""
        x = self.regs[src]
        data = x['matrix'].data
        data = data.reshape((int(np.prod(data.shape[:-1])), data.shape[-1]))
        if data.size == 0:
            return True
        a, b = self.rnd.randrange(data.shape[0]), self.rnd.randrange(data.shape[1])
        p, q = x['matrix'].block_shape
        v = gen_block(self.rnd, p, q, x['gen'], x['k'])
        set_value(data, a, b, v, x['k'], x['gen'])
        return self.emit({'op': 'setentry', 'src': src + 1, 'a': a + 1, 'b': b + 1, 'v': v})

    def transpose(self, src, dst):
        x = self.regs[src]
        status, r = call(lambda: self.operator(src).T.matrix)
        if status == 'ok':
            self.put(dst, {**x, 'matrix': r, 'k': 'fsc' if x['k'] == 'fsr' else 'fsr'})
        return self.emit({'op': 'transpose', 'src': src + 1, 'dst': dst + 1}, status)

    def gram(self, src, repeat=1):
        M = self.regs[src]['matrix']

        e = 1
        if isinstance(M, (FSRMatrix, FSCMatrix)) and self.rnd.random() < 0.3:
            e = self.rnd.choice([2, 3])

        def do():
            if e > 1:
                op = SparseOperator(M, shapein=(M.shape[1], e))
                return nz((op.T * op).todense())
            op = self.operator(src, shapes=self.rnd.random() < 0.8)
            p = op.T * op
            if isinstance(M, (FSRMatrix, FSCMatrix)):
                return nz(p.todense(shapein=M.shape[1]))
            return nz(p.todense())

        status, r = call(do)
        results = []
        if status == 'ok':
            results = [r]
            for _ in range(repeat - 1):
                r = do()
                if r not in results:
                    results.append(r)
        return self.emit({'op': 'gram', 'src': src + 1, 'res': results, 'e': e, '_msg': str(r)[:200]}, status)

    def subspace(self, name, src, dst):
        rnd = self.rnd
        x = self.regs[src]
        M = x['matrix']
        bs = M.block_shape
        axis = 1 if name == 'restrict' else 0
        n = M.shape[axis] // bs[axis]
        mask = np.array([rnd.random() < 0.6 for _ in range(n)], bool)
        if not mask.any():
            mask[rnd.randrange(n)] = True
        inplace = rnd.random() < 0.3
        explicit = isinstance(M, FSRMatrix) and rnd.random() < 0.5
        kw = {}
        shape = (n,)
        if explicit and n % 2 == 0 and rnd.random() < 0.5:
            shape = (2, n // 2)
        if explicit:
            kw = {'shapein' if axis else 'shapeout': shape}
        cls = rnd.choice([SparseOperator, ProjectionOperator])
        shapes = []
        if inplace and name == 'restrict':
            dst = src

        def do():
            op = cls(M, **kw)
            r = getattr(op, name)(mask.reshape(shape), inplace=inplace)
            k = int(mask.sum())
            b = bs[axis]
            if isinstance(M, FSRMatrix):
                bshape = r.broadcastable_shapein if axis else r.broadcastable_shapeout
                shapes.append(bshape == (k,))
                if explicit:
                    shapes.append((r.shapein if axis else r.shapeout) == (k,))
            else:
                expected = (k, b) if b > 1 or True else (k,)
                shapes.append((r.shapein if axis else r.shapeout) == expected)
            return r.matrix

        status, r = call(do)
        if status == 'ok':
            self.put(dst, {**x, 'matrix': r})
        return self.emit({'op': name, 'src': src + 1, 'dst': dst + 1,
                          'mask': [int(_) for _ in mask], 'shapes': all(shapes),
                          '_msg': str(r)[:200], '_inplace': inplace}, status)

    def kernel(self, src):
        rnd = self.rnd
        P = self.operator(src, ProjectionOperator, shapes=rnd.random() < 0.5)
        n = P.matrix.shape[1] // P.matrix.block_shape[1]
        red = rnd.choice(['set', 'set', 'setout', 'iand', 'imul', 'ior', 'iadd'])
        out0 = np.array([rnd.random() < 0.5 for _ in range(n)], bool)
        out = spread(rnd, out0)
        f = {'iand': operator.iand, 'imul': operator.imul, 'ior': operator.ior,
             'iadd': operator.iadd}
        if red == 'set':
            status, r = call(P.canonical_basis_in_kernel)
        elif red == 'setout':
            status, r = call(P.canonical_basis_in_kernel, out=out)
        else:
            status, r = call(P.canonical_basis_in_kernel, out=out, operation=f[red])
        if status == 'ok' and red != 'set':
            r = out
        return self.emit({'op': 'kernel', 'src': src + 1,
                          'red': {'setout': 'set', 'iadd': 'ior'}.get(red, red),
                          'out0': [int(_) for _ in out0], '_msg': str(r)[:200],
                          'res': [num(_) for _ in r] if status == 'ok' else []}, status)

    def pT1(self, src):
        rnd = self.rnd
        P = self.operator(src, ProjectionOperator, shapes=rnd.random() < 0.5)
        x = self.regs[src]
        n = P.matrix.shape[1] // P.matrix.block_shape[1]
        red = rnd.choice(['set', 'setout', 'iadd'])
        out0 = self.rng.integers(0, 9, n).astype(x['ftype'])
        out = spread(rnd, out0)
        if red == 'set':
            status, r = call(P.pT1)
        elif red == 'setout':
            status, r = call(P.pT1, out=out)
        else:
            status, r = call(P.pT1, out=out, operation=operator.iadd)
        if status == 'ok' and red != 'set':
            r = out
        return self.emit({'op': 'pT1', 'src': src + 1, 'red': 'iadd' if red == 'iadd' else 'set',
                          'out0': [num(_) for _ in out0], 'rot2d': x['gen'] == 'rot2d',
                          '_msg': str(r)[:200],
                          'res': [num(_) for _ in r] if status == 'ok' else []}, status)

    def pTx(self, src):
        rnd = self.rnd
        x = self.regs[src]
        P = self.operator(src, ProjectionOperator, shapes=rnd.random() < 0.5)
        M = P.matrix
        n = M.shape[1] // M.block_shape[1]
        dtype = rnd.choice(['float32', 'float64', 'int32', 'int64'])
        v = self.array(M.shape[0], 1, dtype)
        inp = v.ravel()
        if M.block_shape[0] > 1:
            inp = v.reshape((-1, M.block_shape[0]))
        red = rnd.choice(['set', 'setout', 'iadd'])
        dt = np.promote_types(x['ftype'], dtype)
        out0 = self.rng.integers(0, 9, n).astype(dt)
        cov0 = self.rng.integers(0, 9, n).astype(dt)
        out, cov = spread(rnd, out0), spread(rnd, cov0)
        if red == 'set':
            status, r = call(P.pTx_pT1, inp)
        elif red == 'setout':
            status, r = call(P.pTx_pT1, inp, out=(out, cov))
        else:
            status, r = call(P.pTx_pT1, inp, out=(out, cov), operation=operator.iadd)
        res = c = []
        if status == 'ok':
            if red != 'set':
                r = out, cov
            res, c = ([num(_) for _ in y] for y in r)
        return self.emit({'op': 'pTx', 'src': src + 1, 'red': 'iadd' if red == 'iadd' else 'set',
                          'x': [num(_) for _ in v.ravel()], 'after': [num(_) for _ in inp.ravel()],
                          'out0': [num(_) for _ in out0], 'cov0': [num(_) for _ in cov0],
                          'res': res, 'cov': c, '_msg': str(r)[:200], '_dt': [x['ftype'], dtype, red]},
                         status)


# -- exhaustive replay -----------------------------------------------------------
def mc_cfg(kinds, p, q, nr, nc, nmax, vmax, depth, gen):
    ks = '{' + ', '.join(f'"{k}"' for k in kinds) + '}'
    return (
        'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n'
        f'CONSTANTS\n Kinds = {ks}\n P = {p}\n Q = {q}\n NR = {nr}\n NC = {nc}\n'
        f' NMAX = {nmax}\n VMAX = {vmax}\n DEPTH = {depth}\n GEN = "{gen}"\n'
        'INVARIANTS InvWellFormed InvTranspose InvAdjoint InvProduct InvKernel\n'
        'PROPERTIES PropRestrict PropCorestrict\n'
    )


def replay(ctx, result, gen, ops, types=(('int32', 'float64'),)):
    n = 0
    for it, ft in types:
        for m in result.messages:
            if m['op'] not in ops:
                continue
            M = build(m['pre'], gen, it, ft)
            n += 1
            bad = None
            if m['op'] == 'create':
                st, d = call(dense, M)
                if d != m['d']:
                    bad = 'dense', d
                elif 'gram' in ops:
                    kw = {'shapein': M.shape[1]} if gen == 'scalar' else {}
                    op = SparseOperator(M, **kw)
                    st, g = call(lambda: nz((op.T * op).todense()))
                    if g != m['g']:
                        bad = 'gram', g
                if bad is None and 'kernel' in ops and m['ker']:
                    st, g = call(lambda: [num(_) for _ in ProjectionOperator(
                        M).canonical_basis_in_kernel()])
                    if g != m['ker']:
                        bad = 'kernel', g
            else:
                if m['op'] == 'transpose':
                    f = lambda: SparseOperator(M).T.matrix  # noqa: E731
                elif m['op'] == 'scale':
                    f = lambda: M * m['arg'][0]  # noqa: E731
                else:
                    f = lambda: getattr(SparseOperator(M), m['op'])(  # noqa: E731
                        np.array(m['arg'], bool)).matrix
                st, r = call(lambda: dense(f()))
                if r != m['d']:
                    bad = m['op'], r
                else:
                    st, d = call(dense, M)
                    if d != dense(build(m['pre'], gen, it, ft)):
                        bad = 'source-altered', d
            if bad:
                ctx.report([bad[0]], f'MCSparse {gen} {it} {ft}: {m} observed {bad[1]}',
                           {'spec': 'MCSparse', 'transition': m, 'observed': str(bad[1])})
    ctx.coverage['model_transitions_replayed'] += n
    ctx.coverage['traces_validated_against_impl'] += n
    return n
