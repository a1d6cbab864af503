"""C07: the algebra of units."""
import math
import random

from enc import call
from pysimulators import Quantity
from units_lib import Recorder, exponents, logs, string, tokens


def cfg(seeds, depth):
    return ('SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n'
            f'CONSTANTS\n Seeds = {{{", ".join(map(str, seeds))}}}\n DEPTH = {depth}\n'
            'INVARIANTS InvPrint InvInverse InvCommute InvBase InvHom InvPath\n')


def replay(ctx, result):
    for m in result.messages:
        op = m['op']
        if op == 'create':
            st, q = call(Quantity, 2.5, string(m['toks']))
        else:
            q0 = Quantity(2.5, string(m['pre']))
            if op in ('mul', 'div'):
                o = Quantity(1.0, string(m['arg']))
                st, q = call(lambda: q0 * o if op == 'mul' else q0 / o)
            elif op == 'pow':
                p = m['arg'][0] / 12
                st, q = call(lambda: q0 ** p)
            else:
                st, q = call(q0.tounit, string(m['arg']))
        ctx.coverage['model_transitions_replayed'] += 1
        if op == 'refused':
            good = st == 'exc:UnitError'
        else:
            good = st == 'ok' and exponents(tokens(q.unit)) == exponents(m['u'])
            if good and op != 'pow':
                good = abs(logs(q)[0] - m['L'] - 1e5 * math.log(2.5)) < 60
        if not good:
            ctx.report([op], f'MCUnits: {m} observed {q!r}',
                       {'spec': 'MCUnits', 'transition': m, 'observed': repr(q)})


def history(rec, nops):
    rnd = rec.rnd
    if not rec.create(0):
        return
    for _ in range(nops):
        a, dst = rnd.randrange(len(rec.regs)), rec.dst()
        op = rnd.choice(['create', 'binary', 'binary', 'plain', 'power', 'unary', 'convert',
                         'convert', 'convert', 'index'])
        if op == 'create':
            r = rec.create(dst)
        elif op == 'binary':
            r = rec.binary(a, rnd.randrange(len(rec.regs)), dst)
        else:
            r = getattr(rec, op)(a, dst)
        if not r:
            return


def twins(rec):
    """Conversions between the same units of quantities which only differ by values."""
    rec.p_local = 0.9
    rec.p_again = 0.75
    for op in ['create', 'create', *rec.rnd.choices(['convert', 'convert', 'create'], k=6)]:
        dst = rec.dst() if op == 'create' else min(len(rec.regs), 3)
        args = (dst,) if op == 'create' else (rec.rnd.randrange(len(rec.regs)), dst)
        if not getattr(rec, op)(*args):
            return


def run(ctx):
    r = ctx.model('MCUnits', cfg(range(1, 20), ctx.size(1, 2)), name='MCUnits',
                  expect_actions=['Mul', 'Div', 'Pow', 'Convert'])
    replay(ctx, r)
    r = ctx.model('MCUnits', cfg((1, 2, 3, 5, 8), ctx.size(2, 3)), name='MCUnits-deep',
                  expect_actions=['Mul', 'Div', 'Pow', 'Convert'])
    replay(ctx, r)
    histories = []
    for i in range(ctx.size(1200, 8000)):
        rec = Recorder(random.Random(f'{ctx.seed}-{i}'))
        if i % 4 == 3:
            twins(rec)
        else:
            history(rec, rec.rnd.randint(2, 9))
        histories.append(rec.events)
    ctx.validate('TraceUnits', histories, timeout=ctx.size(400, 850), chunk=2000)
