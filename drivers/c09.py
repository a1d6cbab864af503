"""C09: the companions of maps and time-ordered data."""
import random

import numpy as np
from data_lib import CLS, Recorder, build, observe
from enc import call

CFG = ('SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n ROWS = {}\n COLS = {}\n DEPTH = {}\n'
       'INVARIANTS InvAligned InvSize InvFollow InvRoundTrip\n')


def norm(r):
    r = dict(r)
    if r['mask'] and not any(r['mask'][0]):
        r['mask'] = []
    return r


def replay(ctx, result):
    for m in result.messages:
        x = build(m['pre'])
        arg = m['arg']
        if m['op'] == 'select':
            key = eval('x[' + ', '.join(arg) + ',]', {'x': np.s_})
            st, y = call(lambda: x[key])
        elif m['op'] == 'reshape':
            st, y = call(x.reshape, arg['dims'], order=arg['order'])
        elif m['op'] == 'ravel':
            st, y = call(x.ravel, arg)
        else:
            st, y = call(CLS[arg], x)
        ctx.coverage['model_transitions_replayed'] += 1
        o = observe(y) if st == 'ok' else st
        if st != 'ok' or norm(o) != norm(m['post']) or norm(observe(x)) != norm(m['pre']):
            ctx.report([m['op']], f'MCDatatypes: {m["op"]} {arg} observed {o}',
                       {'spec': 'MCDatatypes', 'transition': m, 'observed': str(o)})


def run(ctx):
    for rows, cols, depth in ctx.size([(2, 3, 2)], [(2, 3, 3), (3, 2, 2), (2, 4, 2)]):
        r = ctx.model('MCDatatypes', CFG.format(rows, cols, depth), name=f'MCDatatypes-{rows}x{cols}',
                      expect_actions=['Pick', 'Change', 'Flat', 'Convert'])
        replay(ctx, r)
    histories = []
    for i in range(ctx.size(6000, 40000)):
        rec = Recorder(random.Random(f'{ctx.seed}-{i}'))
        rnd = rec.rnd
        ok = rec.create(0)
        n = rnd.randint(2, 9)
        while ok and n:
            n -= 1
            a, dst = rnd.randrange(len(rec.regs)), rec.dst()
            op = rnd.choice(['create', 'construct', 'construct', 'same', 'select', 'select', 'reshape',
                             'reshape', 'arith', 'binary', 'move', 'parts', 'setmask', 'reduce', 'reduce'])
            ok = rec.create(dst) if op == 'create' else getattr(rec, op)(a, dst)
        histories.append(rec.events)
    ctx.validate('TraceDatatypes', histories, timeout=ctx.size(400, 850), chunk=3000)
