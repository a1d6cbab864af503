"""C03: pack and unpack are inverse, place the values and never alias by surprise."""
import random

import numpy as np
import pysimulators as ps
from enc import call, cells
from tables_lib import PackedTable, Recorder, mc_cfg, py_sel


def array(rnd, rng, lead):
    trail = rnd.choice([(), (), (2,), (3, 2), (1,), (0,)])
    shape = tuple(lead) + trail
    k = rnd.randrange(8)
    x = rng.integers(-1000, 1000, shape)
    if k == 0:
        x = x.astype(float)
    elif k == 1:
        x = x.astype(np.float32)
    elif k == 2:
        x = x.astype(np.int32)
    elif k == 3:
        x = rng.integers(0, 2, shape).astype(bool)
    elif k == 4:
        x = ps.Quantity(x.astype(float), 'Jy')
    elif k == 5:
        x = np.abs(x).astype(np.uint16)
    elif k == 6:
        x = x.astype(complex)
        if rnd.random() < 0.5:
            x = x.real.copy()
    layout = rnd.randrange(4)
    if type(x) is np.ndarray and layout == 1 and x.ndim > 1:
        x = np.asfortranarray(x)
    elif type(x) is np.ndarray and layout == 2 and x.ndim > 0 and x.shape[0] > 0:
        big = np.zeros((2 * x.shape[0],) + x.shape[1:], x.dtype)
        big[::2] = x
        x = big[::2]
    elif type(x) is np.ndarray and layout == 3 and x.ndim > 0:
        x = x[::-1]
    return x


def out_array(rnd, shape, dtype):
    k = rnd.randrange(3)
    if k == 0 or len(shape) == 0 or shape[0] == 0:
        return np.full(shape, 77).astype(dtype)
    if k == 1:
        return np.asfortranarray(np.full(shape, 77).astype(dtype))
    return np.full((2 * shape[0],) + tuple(shape[1:]), 77).astype(dtype)[::2]


def replay_model(ctx):
    """Pack and unpack for every table created by the model."""
    r = ctx.model(
        'MCTables', mc_cfg(ctx.size([(3,), (2, 2)], [(4,), (2, 2), (1, 3)]),
                           ctx.size(2, 4), (-1, 1, 2), ctx.size(1, 2), 0, 0, 3),
        name='MCTables-selection', expect_actions=['CreateOK'],
    )
    r2 = ctx.model(
        'MCTables', mc_cfg(ctx.size([(3,)], [(3,), (2, 2)]), 0, (1,), 1, 2, 0, 3),
        name='MCTables-ordering', expect_actions=['CreateOK'],
    )
    for m in r.messages + r2.messages:
        if not m['valid'] or len(set(m['post'])) != len(m['post']):
            continue
        shape = tuple(m['shape'])
        x = 100 + np.arange(int(np.prod(shape)), dtype=int).reshape(shape)
        kw = {'ordering': np.array(m['ord']).reshape(shape)} if m['ord'] else {}

        def work():
            t = PackedTable(shape, selection=py_sel(m['sel'], shape), **kw)
            y = t.pack(x)
            z = t.unpack(y)
            return cells(y), cells(z, len(shape)), cells(t.pack(z))

        status, obs = call(work)
        ctx.coverage['model_transitions_replayed'] += 1
        ctx.coverage['traces_validated_against_impl'] += 1
        y = [[100 + _] for _ in m['post']]
        if status != 'ok' or obs != (y, m['unp'], y):
            ctx.report(['pack-unpack-model'], f'MCTables: {m} observed {obs}',
                       {'transition': m, 'observed': str(obs)})


def run(ctx):
    replay_model(ctx)
    histories = []
    rng = ctx.np_rng()
    for i in range(ctx.size(1200, 14000)):
        rec = Recorder(random.Random(f'{ctx.seed}-{i}'), rng)
        rnd = rec.rnd
        if not rec.create(dst=0, invalid=0, allow_dup=False, attrs=['val']):
            histories.append(rec.events)
            continue
        if rnd.random() < 0.4:
            from tables_lib import gen_sel

            rec.sub(0, 0, gen_sel(rnd, (len(rec.tabs[0]),), allow_dup=False, invalid=0))
        t, meta = rec.tabs[0], rec.meta[0]
        shape, n = meta['shape'], len(t)
        for _ in range(rnd.randint(1, 4)):
            copy = rnd.random() < 0.4
            if rnd.random() < 0.5:
                good = rnd.random() > 0.08
                lead = shape if good else (shape[0] + 1,) + shape[1:]
                x = array(rnd, rng, lead)
                out = None
                if rnd.random() < 0.35:
                    m = n if rnd.random() < 0.85 else n + 1
                    out = out_array(rnd, (m,) + x.shape[len(shape):], x.dtype)
                rec.pack(0, x, copy=copy, out=out, good=good)
            else:
                m = n
                if rnd.random() < 0.1:
                    m = rnd.choice([1, n + 2, max(n - 1, 1)])
                y = array(rnd, rng, (m,))
                if y.dtype.kind == 'c':
                    y = y.real
                out = None
                if rnd.random() < 0.35:
                    sh = shape if rnd.random() < 0.85 else (shape[0] + 1,) + shape[1:]
                    out = out_array(rnd, tuple(sh) + y.shape[1:], y.dtype)
                missing = None
                if rnd.random() < 0.3:
                    missing = rnd.randint(0, 1) if y.dtype.kind == 'b' else rnd.randint(0, 9)
                rec.unpack(0, y, copy=copy, out=out, missing=missing)
        histories.append(rec.events)
    ctx.validate('TraceTables', histories, timeout=ctx.size(300, 800), chunk=3000)
