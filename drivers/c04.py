"""C04: scattering a table over processes partitions it and gathering restores it."""
import random

import numpy as np
import pysimulators as ps
from enc import cells
from fakecomm import spmd
from tables_lib import PackedTable, Recorder, gen_sel, mc_cfg, observe


def local_project(rec, t, meta, types):
    p = rec.project(t, meta, full=False)
    ok = True
    for a, (cls, dt, unit) in types.items():
        v = getattr(t, a)
        ok = ok and type(v) is cls and v.dtype == dt and getattr(v, 'unit', None) == unit
    p['types'] = bool(ok)
    return p


def history(rec, nproc, seed):
    rnd, rng = rec.rnd, rec.rng
    if not rec.create(dst=0, invalid=0, allow_dup=False):
        return
    if rnd.random() < 0.3:
        rec.sub(0, 0, gen_sel(rnd, (len(rec.tabs[0]),), allow_dup=False, invalid=0))
        # TLC's registers: the global table only
    t, meta = rec.tabs[0], rec.meta[0]
    types = {a: (type(getattr(t, a)), getattr(t, a).dtype, getattr(getattr(t, a), 'unit', None))
             for a in meta['attrs']}
    newval = rnd.random() < 0.5
    n = len(t)
    # values assigned by each process to its local table
    yval = np.asarray(t.val).copy()
    if newval:
        yval = yval + 500
    z = rng.integers(-99, 99, (n, 2)).astype(rnd.choice([float, int, np.float32]))
    strided = rnd.random() < 0.3
    inplace = rnd.random() < 0.5 and nproc > 1

    def work(comm):
        out = {}
        local = t.scatter(comm)
        out['local'] = local_project(rec, local, meta, types)
        out['comm'] = local.comm is comm or (
            comm.size == 1 and local.comm.size == 1
        )
        start = sum(comm.allgather(len(local))[:comm.rank])
        s = slice(start, start + len(local))
        if newval:
            if inplace:
                # the other processes and the global table must not see it
                local.val[...] = yval[s]
            else:
                local.val = yval[s].copy()
            out['y'] = cells(yval[s])
        g = local.gather()
        out['gather'] = local_project(rec, g, meta, types)
        out['after'] = local_project(rec, local, meta, types)
        zz = z[s]
        if strided:
            big = np.zeros((2 * len(zz), 2), z.dtype)
            big[::2] = zz
            zz = big[::2]
        out['z'] = cells(zz)
        r = local.gather(zz)
        out['zg'] = cells(r) if r.dtype == z.dtype else [[0]]
        u = local.unpack(np.ascontiguousarray(z[s]))
        out['u'] = cells(u, len(meta['shape']))
        return out

    res = spmd(nproc, work, seed)
    if any(r[0] != 'ok' for r in res):
        exc = [r[1] for r in res if r[0] != 'ok' and 'another process' not in str(r[1])]
        rec.emit({'op': 'scatter', 'src': 1, 'nproc': nproc,
                  'status': f'exc:{type(exc[0]).__name__}' if exc else 'exc',
                  '_message': str(exc[:1]), 'locals': [], 'orig': [], 'comms': False})
        return
    res = [r[1] for r in res]
    orig = [rec.project(t, meta)]
    if nproc == 1 and newval:
        # on one process the table itself may be returned
        orig = []
    for p in orig:
        p['types'] = True
    rec.emit({'op': 'scatter', 'src': 1, 'nproc': nproc, 'status': 'ok',
              'locals': [r['local'] for r in res], 'orig': orig,
              'comms': all(r['comm'] for r in res)
              and (t.comm.size == 1)})
    if newval:
        rec.emit({'op': 'localset', 'name': 'val', 'y': [r['y'] for r in res],
                  'status': 'ok', 'orig': orig})
    rec.emit({'op': 'gather', 'status': 'ok', 'res': [r['gather'] for r in res],
              'locals': [r['after'] for r in res]})
    rec.emit({'op': 'gatherarray', 'status': 'ok', 'y': [r['z'] for r in res],
              'res': [r['zg'] for r in res]})
    m = -999999001 if z.dtype.kind == 'f' else -1
    rec.emit({'op': 'dunpack', 'status': 'ok', 'y': [r['z'] for r in res],
              'res': [r['u'] for r in res], 'missing': [m, m]})


def replay_model(ctx):
    """Every (table, number of processes) of the model, scattered and gathered."""
    r = ctx.model(
        'MCTables', mc_cfg(ctx.size([(3,), (2, 2)], [(4,), (2, 3)]), 0, (1,),
                           ctx.size(1, 2), ctx.size(1, 0), 1, ctx.size(5, 7)),
        name='MCTables-scatter', expect_actions=['CreateOK', 'Split'],
    )
    parts = {}
    for m in r.messages:
        if m['op'] == 'part':
            key = tuple(m['shape']), tuple(m['pre']), m['m']
            parts.setdefault(key, {})[m['r']] = m['post']
    for (shape, pre, m), posts in sorted(parts.items()):
        if len(set(pre)) != len(pre):
            continue
        order = -np.ones(int(np.prod(shape)), int)
        order[list(pre)] = np.arange(len(pre))
        val = 100 + np.arange(order.size).reshape(shape)
        t = PackedTable(shape, ordering=order.reshape(shape), val=val)

        def work(comm):
            local = t.scatter(comm)
            mine = observe(local)
            g = local.gather()
            return mine, observe(g), observe(t)

        res = spmd(m, work, 0)
        ctx.coverage['model_transitions_replayed'] += m
        ctx.coverage['traces_validated_against_impl'] += 1

        def expected(index):
            return list(index), [100 + _ for _ in index], len(index)

        for rank, (status, x) in enumerate(res):
            good = status == 'ok' and x == (
                expected(posts[rank]), expected(pre), expected(pre))
            if not good:
                ctx.report(['scatter-model'],
                           f'MCTables: {shape} {pre} over {m} processes: {x}',
                           {'shape': shape, 'index': pre, 'nproc': m, 'rank': rank,
                            'observed': str(x), 'expected': posts[rank]})


def run(ctx):
    replay_model(ctx)
    histories = []
    rng = ctx.np_rng()
    for i in range(ctx.size(500, 5000)):
        rec = Recorder(random.Random(f'{ctx.seed}-{i}'), rng)
        history(rec, rec.rnd.choice([1, 2, 2, 3, 3, 4, 5, 7, 11]), seed=i)
        histories.append(rec.events)
    ctx.validate('TraceTables', histories, timeout=ctx.size(300, 800), chunk=1500)
