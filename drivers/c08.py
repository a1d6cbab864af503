"""C08: the units through the functions of NumPy."""
import random

import numpy as np
from enc import call
from pysimulators import Quantity
from quant_lib import MUTATE, OPS, POWERS, Recorder, aslist
from units_lib import exponents, string, tokens

CFG = ('SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANT UnitIds = {{{}}}\n'
       'INVARIANTS InvCovariant InvKnown InvSymmetric\n')


def replay(ctx, result):
    rnd = random.Random('c08')
    for m in result.messages:
        name = m['name']
        if name in ('power', 'float_power'):
            shapes, f = ((3,),), (lambda x, u=getattr(np, name): u(x, 2))
        elif name in MUTATE:
            shapes, f = rnd.choice(MUTATE[name][0]), MUTATE[name][1]
        elif name in OPS:
            while True:
                shapes, f = OPS[name](rnd)
                if name == 'multiply.reduce' or name in ('prod', 'method.prod'):
                    shapes, f = ((2,),), {'prod': np.prod, 'method.prod': lambda x: x.prod(),
                                          'multiply.reduce': np.multiply.reduce}[name]
                if len(m['us']) != 3 or len(shapes) == 3:
                    break
        else:
            continue
        units = m['us']
        if name in MUTATE and not exponents(units[0]) and exponents(units[1]):
            continue
        if name == 'einsum':
            shapes, f = ((3,), (3,)), lambda x, y: np.einsum('i,i', x, y)
        elif name == 'broadcast_arrays':
            shapes, f = ((3,), ()), np.broadcast_arrays
        if len(units) == 1:
            units = units * len(shapes)
        elif len(shapes) == 2:
            units = units[:2]
        args = [Quantity(np.arange(1., 1 + np.prod(s, dtype=int)).reshape(s), string(u))
                for s, u in zip(shapes, units)]
        with np.errstate(all='ignore'):
            st, res = call(f, *args)
        ctx.coverage['model_transitions_replayed'] += 1
        if m['refused']:
            good = st == 'exc:UnitError'
        else:
            good = st == 'ok'
            if good:
                x = aslist(res)[0]
                good = exponents(tokens(x.unit) if isinstance(x, Quantity) else []) == exponents(m['u'])
        if not good:
            ctx.report([name], f'MCQuantities: {m} observed {st} {str(res)[:200]}',
                       {'spec': 'MCQuantities', 'transition': m, 'observed': str(res)[:300]})


def run(ctx):
    ids = ctx.size([*range(1, 8), 12, 13], range(1, 14))
    r = ctx.model('MCQuantities', CFG.format(', '.join(map(str, ids))))
    replay(ctx, r)
    histories = []
    for i in range(ctx.size(4000, 20000)):
        rec = Recorder(random.Random(f'{ctx.seed}-{i}'))
        names = sorted(OPS) + sorted(MUTATE)
        for k in range(rec.rnd.randint(2, 8)):
            r = rec.rnd.random()
            if r < 0.08:
                ok = rec.alias()
            else:   # every operation comes regularly
                ok = rec.apply(names[(i * 7 + k) % len(names)] if k < 2 else None)
            if not ok:
                break
        if rec.events:
            histories.append(rec.events)
    ctx.validate('TraceQuantities', histories, timeout=ctx.size(400, 850), chunk=2000)
    modes = {}
    for h in histories:
        for e in h:
            if e['op'] == 'apply' and e['status'] == 'ok':
                modes[e['name'] + ':' + e['_mode']] = modes.get(e['name'] + ':' + e['_mode'], 0) + 1
    ctx.coverage['operations'] = modes
