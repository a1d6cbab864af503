"""C19: plane geometry, layouts and integration over polygons."""
import random
import functools

import geo_lib
import numpy as np
from par import pmap
from pysimulators import SceneGrid, geometry

CFG = ('SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n LO = {}\n HI = {}\n NR = {}\n NC = {}\n RMAX = {}\n'
       'INVARIANTS InvArea InvTurn InvSquares\n')


def once(m):
    """Observed outcome of a transition of the model, when it is not the expected one."""
    try:
        if m['op'] == 'integrate':
            x = np.array(m['p'], float) / 2
            op = SceneGrid((m['nr'], m['nc'])).get_integration_operator(x)
            d = geo_lib.array(op.todense().ravel(), 2048, 1)
            if len(d) == len(m['row']) and all(abs(u - v) <= 6 for u, v in zip(d, m['row'])) and bool(op.outside) == m['outside']:
                return None
            return f'{d} {op.outside}'
        g = m['g']
        kw = dict(xreflection=g['xr'], yreflection=g['yr'], angle=geo_lib.angle(g['rot']), center=[_ / 8 for _ in g['center']])
        nodes = geo_lib.array(geometry.create_grid((g['nr'], g['nc']), g['spacing'], **kw), 40)
        squares = geo_lib.array(geometry.create_grid_squares((g['nr'], g['nc']), g['spacing'],
                                                             filling_factor=(g['root'] / 4) ** 2, **kw), 40)
        return None if nodes == m['nodes'] and squares == m['squares'] else f'{nodes} {squares}'
    except Exception as exc:
        return repr(exc)


def history(i, seed):
    return geo_lib.history(random.Random(f'{seed}-{i}'))


def run(ctx):
    r = ctx.model('MCGeometry', CFG.format(*ctx.size((1, 3, 1, 2, 2), (1, 4, 2, 2, 3))), expect_actions=['Integrate', 'Build'], timeout=800)
    ms = r.messages
    cap = ctx.size(4000, 20000)
    if len(ms) > cap:
        ms = ctx.rnd.sample(ms, cap)
    ctx.coverage['model_transitions_replayed'] += len(ms)
    for m, bad in zip(ms, pmap(once, ms)):
        if bad:
            ctx.report([m['op']], f'MCGeometry: {m["op"]} observed {bad}',
                       {'spec': 'MCGeometry', 'transition': m, 'observed': bad})
    histories = pmap(functools.partial(history, seed=ctx.seed), range(ctx.size(4000, 40000)))
    ctx.validate('TraceGeometry', histories, timeout=ctx.size(400, 850), chunk=1500)
