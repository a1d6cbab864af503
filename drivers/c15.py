"""C15: celestial frames and the samplings that use them."""
import functools
import random

import numpy as np
from astropy.time import Time
from frame_lib import ANGLES, CART, SPH, Recorder, decode, encode, gst, ints
from par import pmap

CFG = ('SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n C = {}\n STEPS = {}\n'
       'INVARIANTS InvBack InvNorm InvFrame InvPole InvTransit InvDay\n')
DATE = Time('2012-03-04T05:06:07', scale='utc')


def once(m):
    """Observed outcome of a transition of the model, when it is not the expected one."""
    la, st = m['site']
    args = 'NE', DATE, ANGLES[la - 1], ANGLES[st - 1] - float(gst(DATE))
    p = m['op'][0] + m['op'][2]
    v, h = np.array(m['v'], float), np.array(m['h'], float) / 25
    x, want = (v, m['h']) if p == 'EH' else (h, [25 * c for c in m['v']])
    try:
        o = ints(CART[p](*args)(x))[0]
        if o != want:
            return str(o)
        c = encode(x, 'azimuth,elevation', True)
        o = ints(decode(SPH[p](*args, degrees=True)(c), 'azimuth,elevation', True) * np.linalg.norm(v))[0]
        return None if o == want else 'spherical: ' + str(o)
    except Exception as exc:
        return repr(exc)


def history(i, seed):
    rec = Recorder(random.Random(f'{seed}-{i}'))
    getattr(rec, rec.rnd.choice(['walk'] * 4 + ['back'] * 2 + ['sampling'] * 4 + ['date', 'refused']))()
    return rec.events


def run(ctx):
    r = ctx.model('MCFrames', CFG.format(*ctx.size((2, 1), (4, 3))), expect_actions=['ToH', 'ToE', 'Wait'], timeout=800)
    ms = r.messages
    cap = ctx.size(4000, 20000)
    if len(ms) > cap:
        ms = ctx.rnd.sample(ms, cap)
    ctx.coverage['model_transitions_replayed'] += len(ms)
    for m, bad in zip(ms, pmap(once, ms)):
        if bad:
            ctx.report([m['op']], f'MCFrames: {m["op"]} {m["v"]} at {m["site"]} observed {bad}',
                       {'spec': 'MCFrames', 'transition': m, 'observed': bad})
    histories = pmap(functools.partial(history, seed=ctx.seed), range(ctx.size(4000, 30000)))
    ctx.validate('TraceFrames', histories, timeout=ctx.size(400, 850), chunk=6000)
