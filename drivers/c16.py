"""C16: operators acting on samples, their compositions and blocks."""
import functools
import random

import numpy as np
import tl_lib
from enc import near
from par import pmap

CFG = ('SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n R = {}\n N = {}\n KMAX = {}\n DEPTH = {}\n'
       'INVARIANTS InvAdjoint InvGain InvRoll InvCausal InvTwice\n')


def once(m, seed):
    """Observed outcome of a transition of the model, when it is not the expected one."""
    try:
        rnd = random.Random(f'{seed}-{m["op"]}')
        s = 2.0 ** m['z']
        x = np.array(m['x'], float).reshape(m['shape']) / s
        op = tl_lib.build(m['op'], tuple(m['shape']), rnd)
        y = np.asarray((op.T if m['t'] else op)(x))
        o = [near(v, s, 1e-2) for v in y.ravel().tolist()]
        return None if o == m['y'] and list(y.shape) == m['out'] else str((y.shape, o))
    except Exception as exc:
        return repr(exc)


def history(i, seed):
    return tl_lib.history(random.Random(f'{seed}-{i}'))


def run(ctx):
    r = ctx.model('MCTimeLines', CFG.format(*ctx.size((2, 3, 2, 2), (3, 3, 2, 3))),
                  expect_actions=['Tree', 'Fan', 'Rolling'], timeout=800)
    ms = r.messages
    cap = ctx.size(6000, 40000)
    if len(ms) > cap:
        ms = ctx.rnd.sample(ms, cap)
    ctx.coverage['model_transitions_replayed'] += len(ms)
    for m, bad in zip(ms, pmap(functools.partial(once, seed=ctx.seed), ms)):
        if bad:
            ctx.report([m['op']['k']], f'MCTimeLines: {m["op"]} observed {bad}',
                       {'spec': 'MCTimeLines', 'transition': m, 'observed': bad})
    histories = pmap(functools.partial(history, seed=ctx.seed), range(ctx.size(6000, 40000)))
    ctx.validate('TraceTimeLines', histories, timeout=ctx.size(400, 850), chunk=6000)
