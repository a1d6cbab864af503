"""C10: FITS files give back what was saved, to one or several processes."""
import json
import os
import random
import tempfile

import fits_lib as F
import mpi_run
from enc import call
from fakecomm import spmd

CFG = ('SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n ROWS = {}\n COLS = {}\n DEPTH = {}\n SIZES = {}\n'
       'INVARIANTS InvAligned InvRoundTrip InvDistribute\n')


def many(size, func):
    """Results of the processes as (status, value)."""
    return [(s, r) if s == 'ok' else (f'exc:{type(r).__name__}', str(r)[:200]) for s, r in spmd(size, func)]


def norm(r):
    r = dict(r)
    if r.get('mask') and not any(r['mask'][0]):
        r['mask'] = []
    return r


def same(o, x):
    """The observation is the expected array or file, whose origin may be unknown."""
    if not isinstance(o, dict) or set(o) != set(x):
        return False
    o, x = norm(o), norm(x)
    return all(o[k] == x[k] or k == 'org' and x[k] == '?' and o[k] in ('lower', 'upper', '?') for k in x)


def replay(ctx, result, folder):
    path = os.path.join(folder, 'model.fits')
    for i, m in enumerate(result.messages):
        if os.path.exists(path):
            os.remove(path)
        if m['file']:
            F.write(path, m['file'][0])
        r = dict(m['r'])
        if r['org'] == '?':
            continue
        op, arg = m['op'], m['arg']
        st, x = 'ok', F.build(r, i)
        if op == 'save':
            st, _ = call(x.save, path)
        elif op == 'load':
            st, x = call(F.CLS[arg], path)
        elif op == 'part':
            size, rank = arg
            res = many(size, lambda comm: F.CLS[r['cls']](path, comm=comm))
            bad = [a for a in res if a[0] != 'ok']
            st, x = bad[0] if bad else res[rank]
        else:
            continue
        ctx.coverage['model_transitions_replayed'] += 1
        o = F.observe(x) if st == 'ok' else st
        f = F.raw(path)
        if st != 'ok' or not same(o, m['r2']) or len(f) != len(m['file2']) or (f and not same(f[0], m['file2'][0])):
            ctx.report([op], f'MCFitsFiles: {op} {arg} of {r["cls"]}: {o} {f}',
                       {'spec': 'MCFitsFiles', 'transition': m, 'observed': str(o), 'file': str(f)})


def parallel(ctx, folder):
    """Histories of collective operations with a real MPI library."""
    if not mpi_run.available():
        ctx.coverage['mpi'] = 'not available'
        return []
    histories = []
    ctx.coverage['mpi'] = []
    for size in ctx.size([2, 3], [2, 3, 4, 5]):
        out = os.path.join(folder, f'mpi{size}.json')
        count = ctx.size(40, 300)
        rc, text = mpi_run.mpirun(
            size, [os.path.join(mpi_run.HERE, 'mpi_fits.py'), ctx.scratch, folder, str(ctx.seed), str(count), out],
            ctx.size(120, 400))
        if os.path.exists(out):
            with open(out) as f:
                h = json.load(f)
            assert h['size'] == size
            histories += h['histories']
            ctx.coverage['mpi'].append({'processes': size, 'histories': len(h['histories'])})
        else:
            histories.append([{'op': 'mpi', 'status': f'rc={rc}', '_msg': text[-1500:], 'post': [], 'files': []}])
    return histories


def run(ctx):
    with tempfile.TemporaryDirectory(prefix='fits-', dir=ctx.scratch) as folder:
        for rows, cols, depth, sizes in ctx.size([(2, 2, 3, '{2}'), (3, 1, 2, '{2, 4}')],
                                                 [(2, 2, 4, '{2}'), (3, 2, 3, '{2, 4}'), (5, 1, 3, '{2, 3}')]):
            r = ctx.model('MCFitsFiles', CFG.format(rows, cols, depth, sizes), name=f'MCFitsFiles-{rows}x{cols}',
                          expect_actions=['Save', 'Load', 'Distribute', 'Reverse', 'Unit', 'Strip'])
            replay(ctx, r, folder)
        histories = []
        for i in range(ctx.size(400, 4000)):
            rec = F.Recorder(random.Random(f'{ctx.seed}-{i}'), folder, many)
            ok = rec.create()
            for _ in range(rec.rnd.randint(3, 10)):
                op = rec.rnd.choice(['create', 'save', 'save', 'save', 'load', 'load', 'load', 'parts', 'change',
                                     'change'])
                ok = ok and getattr(rec, op)()
            histories.append(rec.events)
        ctx.validate('TraceFitsFiles', histories, timeout=ctx.size(400, 850), chunk=2000)
        histories = parallel(ctx, folder)
        if histories:
            ctx.validate('TraceFitsFiles', histories, name='TraceFitsFiles-MPI')
