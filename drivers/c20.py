"""C20: images, profiles and power spectra."""
import functools
import random

import image_lib
import numpy as np
from par import pmap
from pysimulators import aperture_circular, integrated_profile, profile, psd2
from pysimulators.datautils import distance2

CFG = ('SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n NR = {}\n NC = {}\n VALUES = {}\n CENTERS = {}\n BINS = {}\n DIAMETERS = {}\n'
       'INVARIANTS InvShare InvDisk InvParseval\n')
NAN = image_lib.NAN


def once(m):
    """Observed outcome of a transition of the model, when it is not the expected one."""
    try:
        a = m['a']
        shape = tuple(a['s'])
        if m['op'] == 'disk':
            kw = dict(center=[_ / 4 for _ in a['c']], scale=[_ / 2 for _ in a['q']])
            d = image_lib.scaled(distance2(shape, **kw), 64)
            o = image_lib.scaled(aperture_circular(shape, a['d'] / 2, **kw), 1)
            return None if o == m['mask'] and d == m['d2'] else f'{o} {d}'
        if m['op'] == 'psd':
            x = np.array([complex(*_) for _ in a['v']]).reshape(shape)
            o = image_lib.scaled(np.asarray(psd2(x, fftw_flag=image_lib.FLAG)) * x.size, 64)
            return None if len(o) == len(m['p']) and all(abs(u - w['p']) <= w['tol'] for u, w in zip(o, m['p'])) else str(o)
        x = np.array([np.nan if _ == NAN else _ for _ in a['v']], float).reshape(shape)
        kw = dict(center=[_ / 4 for _ in a['c']], bin=a['b'] / 4, scale=a['q'] / 2, nbins=m['nb'])
        _, y, n = profile(x, histogram=True, **kw)
        _, z = integrated_profile(x, **kw)
        ok = (n.tolist() == [_['n'] for _ in m['p']]
              and all(np.isnan(u) if w['n'] == 0 else abs(u * w['n'] - w['sum']) < 1e-6 for u, w in zip(y, m['p']))
              and image_lib.scaled(z, 4) == [_ * a['q'] ** 2 for _ in m['cum']])
        return None if ok else f'{y} {n} {z}'
    except Exception as exc:
        return repr(exc)


def history(i, seed):
    return image_lib.history(random.Random(f'{seed}-{i}'))


def run(ctx):
    r = ctx.model('MCImages', CFG.format(*ctx.size((2, 2, '{0, 3}', '{2, 5, 9}', '{3, 4}', '{0, 1, 2, 3}'),
                                                   (2, 3, '{0, 3}', '{1, 2, 5, 9}', '{2, 3, 4}', '{0, 1, 2, 3, 4, 5}'))),
                  expect_actions=['MakeProfile', 'MakeDisk', 'Transform'], timeout=800)
    ms = r.messages
    cap = ctx.size(4000, 20000)
    if len(ms) > cap:
        ms = ctx.rnd.sample(ms, cap)
    ctx.coverage['model_transitions_replayed'] += len(ms)
    for m, bad in zip(ms, pmap(once, ms)):
        if bad:
            ctx.report([m['op']], f'MCImages: {m["op"]} observed {bad}',
                       {'spec': 'MCImages', 'transition': m, 'observed': bad})
    histories = pmap(functools.partial(history, seed=ctx.seed), range(ctx.size(4000, 40000)))
    ctx.validate('TraceImages', histories, timeout=ctx.size(400, 850), chunk=1500)
