"""C13: FITS headers, pixels and world coordinates."""
import functools
import random

import numpy as np
from head_lib import ANGLES, CTYPES, Recorder, decompose, getw, make, world_out
from par import pmap
from pysimulators.wcsutils import WCSToWorldOperator, create_fitsheader

CFG = ('SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n CS = {}\n PS4 = {}\n NX = 4\n'
       'INVARIANTS InvRemade InvInverse InvScale\n')


def once(m):
    w = m['h']['w'][0]
    c, t = m['c'], m['t']
    naxis = m['h']['naxis']
    try:
        if m['op'] == 'create':
            for how in ('cd', 'cdelt'):
                kw = {} if how == 'cd' else {'cdelt': np.array(c) * 5 / 8, 'pa': ANGLES[t - 1]}
                h = make(naxis, w, how, **kw)
                if getw(h) != [w]:
                    return f'{how}: {getw(h)}'
            return None
        h = make(naxis, w)
        if m['op'] == 'decompose':
            o = decompose(h)
            return None if list(o) == [c, t] else str(o)
        op = WCSToWorldOperator(h, 1)
        q = op(np.array(m['p']) / 2)
        p = op.I(q)
        if world_out(q, w['ctype']) != [m['q']]:
            return str(q)
        return None if np.allclose(2 * p, m['p'], atol=1e-6) else str(p)
    except Exception as exc:
        return repr(exc)


def history(i, seed):
    rec = Recorder(random.Random(f'{seed}-{i}'))
    rnd = rec.rnd
    if rnd.random() < 0.25:
        for _ in range(3):
            getattr(rec, rnd.choice(['combine', 'mean', 'mean', 'angle', 'barycenter', 'classic']))()
        return rec.events
    if rec.create():
        for _ in range(rnd.randint(1, 5)):
            getattr(rec, rnd.choice(['decompose', 'coordinates', 'coordinates', 'scene', 'string', 'create']))()
    return rec.events


def run(ctx):
    r = ctx.model('MCHeaders', CFG.format(*ctx.size(('{1, 2}', '{3, 6, 9, 12}'), ('{1, 2, 3}', '{1, 3, 4, 6, 7, 9, 12}'))),
                  expect_actions=['Create', 'Decompose', 'Remake', 'ToWorld'], timeout=800)
    ms = r.messages
    rnd = ctx.rnd
    cap = ctx.size(8000, 60000)
    if len(ms) > cap:
        ms = rnd.sample(ms, cap)
    ctx.coverage['model_transitions_replayed'] += len(ms)
    for m, bad in zip(ms, pmap(once, ms)):
        if bad:
            ctx.report([m['op']], f'MCHeaders: {m["op"]} {m["h"]} observed {bad}',
                       {'spec': 'MCHeaders', 'transition': m, 'observed': bad})
    histories = pmap(functools.partial(history, seed=ctx.seed), range(ctx.size(6000, 40000)))
    ctx.validate('TraceHeaders', histories, timeout=ctx.size(400, 850), chunk=6000)
