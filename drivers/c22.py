"""C22: HEALPix pixels, convolutions, laplacians and scenes."""
import functools
import random

import healpix_lib
from par import pmap

CFG = ('SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n SIZES = {}\n NESTED = {}\n ZQ = {}\n TQ = {}\n'
       'INVARIANTS InvContains InvSchemes InvMirror InvNeighbours\n')


def once(m):
    """Observed outcome of a transition of the model, when it is not the expected one."""
    try:
        n = m['n']
        if m['op'] == 'center':
            for convention in healpix_lib.CONVENTIONS:
                z, a = healpix_lib.centers(n, convention, m['nest'], [m['p']])
                if z != [m['c']['z']] or not healpix_lib.same_angle(a[0], m['c']['t'], m['c']['d']):
                    return f'{convention} {z} {a}'
            return None
        for convention in healpix_lib.CONVENTIONS:
            for nest, p in [(False, m['p'])] + ([(True, m['nested'])] if m['nested'] >= 0 else []):
                o = healpix_lib.pixels(n, convention, nest, m['z'] / m['zq'], m['t'] / m['tq'])
                if o != [p]:
                    return f'{convention} {nest} {o}'
    except Exception as exc:
        return repr(exc)


def history(i, seed):
    return healpix_lib.history(random.Random(f'{seed}-{i}'))


def key(history, event, verdict):
    if verdict['bad'] == ['weights']:
        return 'laplacian-weights'


def run(ctx):
    r = ctx.model('MCHealpix', CFG.format(*ctx.size(('{1, 2, 3}', '{1, 2}', 13, 5), ('{1, 2, 3, 4}', '{1, 2, 4}', 29, 7))),
                  expect_actions=['CenterOf', 'CellCenter', 'Locate'], timeout=800)
    ms = r.messages
    cap = ctx.size(3000, 20000)
    if len(ms) > cap:
        ms = ctx.rnd.sample(ms, cap)
    ctx.coverage['model_transitions_replayed'] += len(ms)
    for m, bad in zip(ms, pmap(once, ms)):
        if bad:
            ctx.report([m['op']], f'MCHealpix: {m["op"]} observed {bad}',
                       {'spec': 'MCHealpix', 'transition': m, 'observed': bad})
    histories = pmap(functools.partial(history, seed=ctx.seed), range(ctx.size(3000, 30000)))
    ctx.validate('TraceHealpix', histories, timeout=ctx.size(400, 850), chunk=1000, key=key)
