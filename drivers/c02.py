"""C02: chains of subsets, splits and assignments keep index and attributes aligned."""
import random

import numpy as np
import tables_lib
from tables_lib import Recorder, gen_sel

EXPECT = ['CreateOK', 'SubOK', 'SubInvalid', 'Split']


def history(rec, nops):
    rnd = rec.rnd
    if not rec.create(dst=0, invalid=0):
        return
    fresh = set()    # registers that share no memory with another table
    for _ in range(nops):
        src = rnd.randrange(len(rec.tabs))
        t, meta = rec.tabs[src], rec.meta[src]
        op = rnd.choice(['sub'] * 8 + ['split'] * 2 + ['set', 'setall', 'copy', 'fill'])
        n = len(t)
        if op in ('set', 'setall') and any(
            u is t for i, u in enumerate(rec.tabs) if i != src
        ):
            # the selection of all the components may return the table itself
            continue
        if op == 'sub':
            dst = rnd.choice([d for d in range(min(len(rec.tabs) + 1, 3)) if d != src]
                             if rnd.random() < 0.7 else [src])
            fresh -= {src, dst}
            rec.sub(src, dst, gen_sel(rnd, (n,), allow_dup=rnd.random() < 0.3, invalid=0.06))
        elif op == 'split':
            rec.split(src, rnd.choice([1, 2, 3, n + 1 if n < 8 else 4]))
        elif op == 'copy':
            dst = rnd.choice([d for d in range(min(len(rec.tabs) + 1, 3)) if d != src])
            rec.copy(src, dst)
            fresh |= {dst}
        elif op == 'set':
            a = rnd.choice([a for a in meta['attrs'] if a != 'qty'])
            m = n if rnd.random() < 0.85 else n + rnd.choice([1, 2])
            y = rec.values(a, m)
            if meta['extra'] and a == 'val':
                y = np.broadcast_to(
                    y.reshape((m,) + (1,) * len(meta['extra'])), (m,) + meta['extra']
                ).copy()
            if y.dtype.kind != getattr(t, a).dtype.kind:
                y = y.astype(getattr(t, a).dtype)
            fresh -= {src}
            rec.set(src, a, y)
        elif op == 'setall':
            a = rnd.choice([a for a in meta['attrs'] if a != 'qty'])
            shape = meta['shape']
            if rnd.random() < 0.1:
                shape = (shape[0] + 1,) + shape[1:]
            m = int(np.prod(shape))
            y = rec.values(a, m)
            if meta['extra'] and a == 'val':
                y = np.broadcast_to(
                    y.reshape((m,) + (1,) * len(meta['extra'])), (m,) + meta['extra']
                ).copy()
            y = y.astype(getattr(t, a).dtype)
            if y.ndim == 0:
                continue
            rec.setall(src, a, y.reshape(tuple(shape) + y.shape[1:]))
        elif op == 'fill':
            if src in fresh and 'val' in meta['attrs'] and n > 0:
                rec.fill(src, 'val', rnd.randint(0, 9))


def run(ctx):
    r = ctx.model(
        'MCTables',
        tables_lib.mc_cfg(ctx.size([(3,), (2, 2)], [(4,), (2, 2), (1, 3)]),
                          ctx.size(3, 5), (-2, -1, 1, 2), ctx.size(1, 2), 0,
                          2, 3),
        name='MCTables-subsets', expect_actions=EXPECT, timeout=800,
    )
    tables_lib.replay_transitions(ctx, r)
    r = ctx.model(
        'MCTables',
        tables_lib.mc_cfg(ctx.size([(3,)], [(3,), (2, 2)]), 1, (-1, 1), 1, 2, 1, 3),
        name='MCTables-ordered-subsets', expect_actions=EXPECT, timeout=800,
    )
    tables_lib.replay_transitions(ctx, r)

    histories = []
    rng = ctx.np_rng()
    for i in range(ctx.size(600, 6000)):
        rec = Recorder(random.Random(f'{ctx.seed}-{i}'), rng)
        history(rec, rec.rnd.randint(2, 8))
        histories.append(rec.events)
    ctx.validate('TraceTables', histories, timeout=ctx.size(300, 800), chunk=1500)
