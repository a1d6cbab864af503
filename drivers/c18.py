"""C18: noise and inverse noise covariance of the instruments."""
import functools
import random

import noise_lib
import numpy as np
from par import pmap
from pysimulators import Instrument, PackedTable, Sampling
from pysimulators.noises import _fold_psd, _unfold_psd

CFG = ('SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n VALUES = {}\n KNEES = {}\n SLOPES = {}\n SIZES = {}\n'
       'INVARIANTS InvFold InvInverse InvSymmetric\n')


def once(m, seed):
    """Observed outcome of a transition of the model, when it is not the expected one."""
    try:
        if m['op'] in ('fold', 'unfold'):
            o = noise_lib.fixed((_fold_psd if m['op'] == 'fold' else _unfold_psd)(m['x']), 1)[0]
            return None if o == m['y'] else str(o)
        a = m['model']
        n = a['n']
        instrument, sampling = Instrument(PackedTable(1), 'x'), Sampling(n, period=1 / noise_lib.q(a['fs']))
        op = instrument.get_invntt_operator(sampling, sigma=noise_lib.q(a['sigma2']) ** 0.5, fknee=noise_lib.q(a['fknee']),
                                            fslope=a['slope'], ncorr=n - 1, fftw_flag='FFTW_ESTIMATE')
        o = noise_lib.fixed(op(np.array([m['x']], float)))[0]
        return None if len(o) == n and all(abs(u - v) <= 100 for u, v in zip(o, m['y'])) else str(o)
    except Exception as exc:
        return repr(exc)


def history(i, seed):
    return noise_lib.history(random.Random(f'{seed}-{i}'))


def run(ctx):
    r = ctx.model('MCNoise', CFG.format(*ctx.size(('{0, 2, 6}', '{1, 3}', '{1, 2}', '{2, 4, 8}'),
                                                  ('{0, 2, 6, 8}', '{1, 2, 3}', '{1, 2}', '{2, 4, 6, 8}'))),
                  expect_actions=['FoldIt', 'UnfoldIt', 'Weigh'], timeout=800)
    ms = r.messages
    cap = ctx.size(3000, 20000)
    if len(ms) > cap:
        ms = ctx.rnd.sample(ms, cap)
    ctx.coverage['model_transitions_replayed'] += len(ms)
    for m, bad in zip(ms, pmap(functools.partial(once, seed=ctx.seed), ms)):
        if bad:
            ctx.report([m['op']], f'MCNoise: {m["op"]} observed {bad}',
                       {'spec': 'MCNoise', 'transition': m, 'observed': bad})
    histories = pmap(functools.partial(history, seed=ctx.seed), range(ctx.size(4000, 40000)))
    ctx.validate('TraceNoise', histories, timeout=ctx.size(400, 850), chunk=1500)
