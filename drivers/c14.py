"""C14: pointing matrices and their projections."""
import functools
import random

import numpy as np
from enc import flat, num
from par import pmap
from proj_lib import SCALE, Group, Recorder, make, raw
from pysimulators import ProjectionInMemoryOperator

CFG = ('SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n NP = {}\n NS = {}\n NE = {}\n VS = {}\n DEPTH = {}\n NIDS = {}\n'
       'INVARIANTS InvAdjoint InvPTP InvPack InvApply InvFly InvFail\n')


def scaled(x, s=SCALE):
    return flat(x, lambda v: num(s * v))


def eff(rows):
    out = []
    for r in rows:
        k = [i for i, e in enumerate(r) if e[0] == -1]
        out.append(r[:k[0]] if k else r)
    return out


def once(m):
    """Observed outcome of a transition of the model, when it is not the expected one."""
    try:
        if m['op'] == 'fly':
            g = Group([None, 1, 'b'], [[[[0, 4 * i]]] for i in (1, 2, 3)], [2], [1], 1)
            for e in m['path']:
                st, out, calls, free = g.use(e['id'] - 1, 'direct', np.array([5.0, 7.0]), e['fails'])
                o = ['raises' if st == 'exc:RuntimeError' else st, calls]
                if o != [e['st'], e['calls']] or not free or st == 'ok' and flat(out) != [5 * e['id']]:
                    return str((o, out))
            return None
        n = len(m['rows'][0])
        M = make(m['rows'], [m['np']], [len(m['rows'])], n)
        P = ProjectionInMemoryOperator(M)
        if m['op'] == 'pack':
            M.pack(np.array(m['mask'], bool))
            ok = eff(raw(M)) == m['post'] and tuple(M.shape_input) == (m['keep'],)
            return None if ok else str(raw(M))
        if m['op'] == 'apply':
            P.apply_mask(m['m'])
            return None if raw(M) == m['post'] else str(raw(M))
        x, y = np.array(m['x'], float), np.array(m['y'], float)
        out = np.full(len(y), 7.0)
        P(x, out)
        o = {'direct': scaled(out), 'back': scaled(P.T(y)), 'mask': [bool(v) for v in M.get_mask()],
             'ptp': [scaled(r, SCALE ** 2) for r in P.get_pTp()]}
        bad = {k: v for k, v in o.items() if v != m[k]}
        d = (P.T * P).todense()
        if [scaled(r, SCALE ** 2) for r in d] != m['ptp']:
            bad['P.T*P'] = d.tolist()
        return str(bad) if bad else None
    except Exception as exc:
        return repr(exc)


OPS = ['direct', 'direct', 'transpose', 'transpose', 'ptp', 'get_pTp', 'pTx_pT1', 'diagonal', 'intersects', 'unit',
       'get_mask', 'pack', 'apply_mask', 'isvalid', 'fill']


def history(i, seed):
    rec = Recorder(random.Random(f'{seed}-{i}'))
    if rec.rnd.random() < 0.25:
        rec.group()
        for _ in range(rec.rnd.randint(2, 8)):
            getattr(rec, rec.rnd.choice(['use', 'use', 'use', 'column']))()
    elif rec.new():
        for _ in range(rec.rnd.randint(2, 8)):
            getattr(rec, rec.rnd.choice(OPS))()
    return rec.events


def run(ctx):
    r = ctx.model('MCProjection', CFG.format(*ctx.size((2, 2, 2, '{0, 2, 4}', 4, 2), (3, 2, 2, '{0, 2, 4}', 5, 3))),
                  expect_actions=['Observe', 'DoPack', 'DoApply', 'Use'], timeout=800)
    ms = r.messages
    cap = ctx.size(10000, 60000)
    if len(ms) > cap:
        ms = ctx.rnd.sample(ms, cap)
    ctx.coverage['model_transitions_replayed'] += len(ms)
    for m, bad in zip(ms, pmap(once, ms)):
        if bad:
            ctx.report([m['op']], f'MCProjection: {m["op"]} {m.get("rows") or m.get("path")} observed {bad}',
                       {'spec': 'MCProjection', 'transition': m, 'observed': bad})
    histories = pmap(functools.partial(history, seed=ctx.seed), range(ctx.size(6000, 40000)))
    ctx.validate('TraceProjection', histories, timeout=ctx.size(400, 850), chunk=6000)
