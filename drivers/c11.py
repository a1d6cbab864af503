"""C11: acquisitions over a grid of processes."""
import functools
import gc
import random

from acq_lib import Recorder, build, describe, values
from par import pmap

CFG = ('SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n ND = {}\n NT = {}\n NP = {}\n PROCS = {}\n DEPTH = {}\n'
       'INVARIANTS InvBlocks InvParts InvTranspose InvBalanced InvAdjoint InvGroups\n')
OPS = ['create', 'select', 'select', 'select', 'direct', 'direct', 'transpose', 'transpose', 'noise', 'observe',
       'observe', 'weight', 'pack', 'unpack', 'parts', 'nbytes', 'scatter', 'badselect']


def execute(m, nd, nt, npix):
    """What is wrong with the transition m of the model, executed by the code."""
    path = m.get('path') or [{'n': m['n'], 'ni': m['ni'], 'ns': m['ns'], 'block': []}]
    w, sts, acqs = build(path, nd, nt, npix)
    if m['op'] == 'refuse':
        return f'{path} {sts}' if any(s != 'exc:ValueError' for s in sts) else None
    if w.stuck:
        return f'{path} {sts}'
    sts, obs = w.run(lambda r: {**values(acqs[r]), **describe(acqs[r])})
    for i, p in enumerate(m['post']):
        a, o = p['a'], obs[i]
        if o is None or any(o[k] != a[k] for k in ('dets', 'samps', 'pixs')) or o['y'] != p['y'] \
                or o['z'] != p['z'] or o['size'] != len(a['group']):
            return f'{path} process {i}: {sts[i]} {o} expected {p}'
    return None


def replay(ctx, result, nd, nt, npix, limit=None):
    messages = result.messages
    if limit and len(messages) > limit:
        messages = random.Random(ctx.seed).sample(messages, limit)
    ctx.coverage['model_transitions_replayed'] += len(messages)
    for m, bad in zip(messages, pmap(functools.partial(execute, nd=nd, nt=nt, npix=npix), messages)):
        if bad:
            ctx.report([m['op']], f'MCAcquisition: {bad}', {'spec': 'MCAcquisition', 'transition': m, 'observed': bad})


def history(i, seed):
    rec = Recorder(random.Random(f'{seed}-{i}'))
    rnd = rec.rnd
    if rnd.random() < 0.03:
        rec.badblock()
        return rec.events
    ok = rec.create(0)
    n = rnd.randint(2, 10)
    while ok and n:
        n -= 1
        a = rnd.randrange(len(rec.regs))
        op = rnd.choice(OPS)
        if op == 'create':
            ok = rec.create(rec.dst())
        elif op == 'select':
            ok = rec.select(a, rec.dst())
        else:
            ok = getattr(rec, op)(a)
    return rec.events


def run(ctx):
    # the selections call it: costly, and without other effect than the memory
    gc.collect = lambda *args: 0
    for args in ctx.size([(2, 3, 3, 4, 1)], [(2, 3, 3, 6, 1), (3, 4, 5, 2, 2), (3, 3, 2, 4, 1)]):
        r = ctx.model('MCAcquisition', CFG.format(*args), name='MCAcquisition-' + '-'.join(map(str, args)),
                      expect_actions=['Start', 'Choose'], timeout=ctx.size(300, 800))
        replay(ctx, r, *args[:3], limit=ctx.size(4000, 30000))
    histories = pmap(functools.partial(history, seed=ctx.seed), range(ctx.size(3000, 24000)))
    ctx.validate('TraceAcquisition', histories, timeout=ctx.size(400, 850), chunk=3000)
