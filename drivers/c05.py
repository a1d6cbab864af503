"""C05: products of the sparse storages and of their transposes."""
import random

from sparse_lib import Recorder, mc_cfg, replay

EXPECT = ['Transpose', 'Scale']


def history(rec, nops):
    rnd = rec.rnd
    if not rec.create(0):
        return
    shared = set()    # pairs of registers sharing their entries
    for _ in range(nops):
        src = rnd.randrange(len(rec.regs))
        op = rnd.choice(['apply'] * 8 + ['scale', 'copy', 'transpose', 'gram', 'create', 'setentry'])
        dst = rec.dst()
        if op == 'apply':
            rec.apply(src)
        elif op == 'gram':
            rec.gram(src)
        elif op == 'setentry':
            if any(src in s for s in shared):
                continue
            rec.setentry(src)
        else:
            if op == 'transpose' and dst == src:
                continue
            shared = {s for s in shared if dst not in s}
            if op == 'create':
                rec.create(dst)
            else:
                getattr(rec, op)(src, dst)
                if op == 'transpose':
                    shared.add((src, dst))
                    for s in list(shared):
                        if src in s:
                            shared.add((s[0], dst))
                            shared.add((s[1], dst))
        if rec.events[-1]['status'] != 'ok':
            return


def big_history(rec):
    """Many entries accumulated in few components: concurrent updates."""
    rec.light = True
    nmax = rec.rnd.choice([None, None, 1])
    gen = rec.rnd.choice(['scalar', 'rot2d', 'rot3d']) if nmax else None
    if not rec.create(0, big=True, k='fsr' if nmax else None, gen=gen, nmax=nmax):
        return
    for _ in range(3):
        rec.apply(0, repeat=15)
    if nmax:
        rec.gram(0, repeat=100)


def run(ctx):
    ops = ('create', 'gram', 'transpose', 'scale')
    k2 = ('fsr', 'fsc')
    r = ctx.model('MCSparse', mc_cfg(k2, 1, 1, 2, 2, ctx.size(1, 2), 2, 1, 'block'),
                  name='MCSparse-scalar', expect_actions=EXPECT)
    replay(ctx, r, 'scalar', ops, ctx.size(
        [('int32', 'float64'), ('int64', 'float32'), ('int16', 'float64')],
        [('int32', 'float64'), ('int64', 'float32'), ('int64', 'float64'),
         ('int32', 'float32'), ('int16', 'float64'), ('int8', 'float32')]))
    blocks = [(1, 2), (1, 3), (2, 1), (2, 2), (2, 3), (3, 1), (3, 2), (3, 3)]
    for p, q in blocks:
        r = ctx.model('MCSparse', mc_cfg(k2, p, q, 2, 2, 1, ctx.size(1, 2), 1, 'block'),
                      name=f'MCSparse-block{p}{q}', expect_actions=EXPECT)
        replay(ctx, r, 'block', ops, ctx.size(
            [('int32', 'float64'), ('int64', 'float32'), ('int16', 'float64')],
            [(i, f) for i in ('int8', 'int32', 'int64') for f in ('float32', 'float64')]))
    for g, p in ('rot2d', 2), ('rot3d', 3):
        r = ctx.model('MCSparse', mc_cfg(k2, p, p, 2, 2, 1, ctx.size(1, 2), 1, g),
                      name=f'MCSparse-{g}', expect_actions=EXPECT)
        replay(ctx, r, g, ops, ctx.size(
            [('int32', 'float64'), ('int64', 'float32'), ('int16', 'float64')],
            [(i, f) for i in ('int8', 'int32', 'int64') for f in ('float32', 'float64')]))

    histories = []
    rng = ctx.np_rng()
    for i in range(ctx.size(400, 4000)):
        rec = Recorder(random.Random(f'{ctx.seed}-{i}'), rng)
        history(rec, rec.rnd.randint(3, 8))
        histories.append(rec.events)
    for i in range(ctx.size(24, 100)):
        rec = Recorder(random.Random(f'big-{ctx.seed}-{i}'), rng)
        big_history(rec)
        histories.append(rec.events)
    ctx.validate('TraceSparse', histories, timeout=ctx.size(400, 850), chunk=800)
