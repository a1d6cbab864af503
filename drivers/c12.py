"""C12: distribution of observations, detectors and headers over processes."""
import functools
import random

import numpy as np
from dist_lib import SCALE, Recorder, apply, distribute, header
from par import pmap
from pysimulators import mpiutils

CFG = ('SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n NX = {}\n ND = {}\n NTH = {}\n SIZE = {}\n NHDR = {}\n'
       'INVARIANTS InvOnce InvNothing InvEven InvGathered InvLocal\nPROPERTY Ends\n')


def scaled(hd):
    return {'naxis': hd['naxis'], 'crpix': [SCALE * c for c in hd['crpix']]}


def once(m):
    """Observed outcome of a transition of the model, when it is not the expected one."""
    c = m['in']
    if m['op'] == 'distribute':
        e = distribute(np.zeros(c['nd'], bool), list(range(c['nx'])), c['nth'], c['size'], 'rank')
        if any(s != 'ok' for s in e['sts']):
            return str(e['sts'])
        load = lambda ps: max(len(o) * -(-len(d) // c['nth']) for o, d in ps)
        pairs = sorted((o, d) for os, ds in e['parts'] for o in os for d in ds)
        ok = (pairs == sorted((o, d) for o in range(c['nx']) for d in range(c['nd']))
              and load(e['parts']) <= load(m['parts']) and e['intact'])
        return None if ok else str(e['parts'])
    pre = [m['pre']] * c['size'] if m['op'] == 'scatter' else m['pre']
    func = mpiutils.scatter_fitsheader if m['op'] == 'scatter' else mpiutils.gather_fitsheader
    sts, obs, intact, _ = apply(func, [header(scaled(h)) for h in pre])
    ok = intact and all(s == 'ok' for s in sts) and all(
        o == dict(scaled(p), rest=True) for o, p in zip(obs, m['post']))
    return None if ok else str((sts, obs))


def history(i, seed):
    rec = Recorder(random.Random(f'{seed}-{i}'))
    getattr(rec, rec.rnd.choice(['distribute', 'distribute', 'distribute', 'headers', 'headers', 'locals', 'locals', 'bad']))()
    return rec.events


def run(ctx):
    r = ctx.model('MCDistribution', CFG.format(*ctx.size((5, 6, 3, 6, 7), (8, 9, 4, 9, 12))),
                  expect_actions=['Skip', 'Enlarge', 'Found', 'Scatter', 'Gather'], timeout=800)
    ctx.coverage['model_transitions_replayed'] += len(r.messages)
    for m, bad in zip(r.messages, pmap(once, r.messages)):
        if bad:
            ctx.report([m['op']], f'MCDistribution: {m["op"]} {m["in"]} observed {bad}',
                       {'spec': 'MCDistribution', 'transition': m, 'observed': bad})
    histories = pmap(functools.partial(history, seed=ctx.seed), range(ctx.size(6000, 40000)))
    ctx.validate('TraceDistribution', histories, timeout=ctx.size(400, 850), chunk=6000)
