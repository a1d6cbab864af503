"""C23: black bodies, distortions, rotations of the instrument plane and samplings."""
import functools
import random

import spectra_lib
from par import pmap

CFG = ('SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n KS = {}\n MS = {}\n BETAS = {{0, 1, 2, 3}}\n XS = {}\n'
       'INVARIANTS InvReference InvWien InvLength\n')


def once(m):
    """Observed outcome of a transition of the model, when it is not the expected one."""
    try:
        if m['op'] == 'flux':
            o = spectra_lib.flux(m['k'], m['k0'], m['m'], m['beta']) * 4096
            return None if abs(o - m['out']) <= m['out'] / 64 + 4 else f'{o}'
        o = spectra_lib.rotate(m['d'], m['x'], m['y'])
        return None if o == m['out'] else f'{o}'
    except Exception as exc:
        return repr(exc)


def history(i, seed):
    return spectra_lib.history(random.Random(f'{seed}-{i}'))


def run(ctx):
    r = ctx.model('MCSpectra', CFG.format(*ctx.size(('{8, 12, 16, 24}', '{1, 2, 3}', 4),
                                                    ('{8, 10, 12, 14, 16, 20, 24}', '{1, 2, 3, 4}', 12))),
                  expect_actions=['Extrapolate', 'Rotate'], timeout=800)
    ms = r.messages
    ctx.coverage['model_transitions_replayed'] += len(ms)
    for m, bad in zip(ms, pmap(once, ms)):
        if bad:
            ctx.report([m['op']], f'MCSpectra: {m["op"]} observed {bad}',
                       {'spec': 'MCSpectra', 'transition': m, 'observed': bad})
    histories = pmap(functools.partial(history, seed=ctx.seed), range(ctx.size(4000, 40000)))
    ctx.validate('TraceSpectra', histories, timeout=ctx.size(400, 850), chunk=2000)
