"""C21: instruments, imagers, beams and mask policies."""
import functools
import random

import instrument_lib
import numpy as np
from enc import call
from par import pmap
from pysimulators import Instrument, MaskPolicy, PackedTable

CFG = ('SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n N = {}\n DEPTH = {}\n MAXFLAGS = {}\n'
       'INVARIANTS InvSubset InvPartition InvPack InvPolicy\n')


def once(m, n):
    """Observed outcome of a transition of the model, when it is not the expected one."""
    try:
        if m['op'] == 'policy':
            a = m['a']
            st, r = call(lambda: np.array(MaskPolicy([_['name'] for _ in a['flags']], list(a['values']))).tolist())
            return None if (st == m['error'] if m['error'] else st == 'ok' and r == m['array']) else f'{st} {r}'
        a = Instrument('x', PackedTable(n, selection=np.array([_ in m['start'] for _ in range(n)])))
        for sel in m['sels']:
            a = a[instrument_lib.selection(sel)]
        if m['op'] == 'select':
            o = [int(_) for _ in a.detector.index]
            return None if o == m['ids'] and len(a) == len(o) else str(o)
        o = [[[int(_) for _ in x.detector.index] for x in a.split(k + 1)] for k in range(3)]
        p = a.pack(np.arange(n) + 11).tolist()
        q = a.unpack(np.arange(len(a)) + 11).tolist()
        return None if o == m['groups'] and p == m['packed'] and [max(_, 0) for _ in q] == m['unpacked'] else f'{o} {p} {q}'
    except Exception as exc:
        return repr(exc)


def history(i, seed):
    return instrument_lib.history(random.Random(f'{seed}-{i}'))


def run(ctx):
    n, depth, flags = ctx.size((3, 2, 2), (4, 2, 3))
    r = ctx.model('MCInstruments', CFG.format(n, depth, flags), expect_actions=['Choose', 'Share', 'Decide'], timeout=800)
    ms = r.messages
    cap = ctx.size(4000, 30000)
    if len(ms) > cap:
        ms = ctx.rnd.sample(ms, cap)
    ctx.coverage['model_transitions_replayed'] += len(ms)
    for m, bad in zip(ms, pmap(functools.partial(once, n=n), ms)):
        if bad:
            ctx.report([m['op']], f'MCInstruments: {m["op"]} observed {bad}',
                       {'spec': 'MCInstruments', 'transition': m, 'observed': bad})
    histories = pmap(functools.partial(history, seed=ctx.seed), range(ctx.size(6000, 60000)))
    ctx.validate('TraceInstruments', histories, timeout=ctx.size(400, 850), chunk=1500)
