"""C06: restrictions, kernel and coverage of the sparse projections."""
import random

from sparse_lib import GENS, SIGNED, UNSIGNED, Recorder, mc_cfg, replay

EXPECT = ['RestrictCols', 'RestrictRows']


def history(rec, nops):
    rnd = rec.rnd
    unsigned = rnd.random() < 0.15
    gen = rnd.choice(GENS) if unsigned else None
    if not rec.create(0, k='fsr', gen=gen, itypes=UNSIGNED if unsigned else SIGNED, dims=True):
        return
    for _ in range(nops):
        src = rnd.randrange(len(rec.regs))
        x = rec.regs[src]
        M = x['matrix']
        op = rnd.choice(['restrict', 'corestrict', 'kernel', 'kernel', 'pT1', 'pTx', 'apply', 'setentry'])
        gen = x['gen']
        if op == 'restrict':
            if gen == 'block' and M.block_shape[1] == 1 or unsigned:
                continue
            rec.subspace('restrict', src, rec.dst())
        elif op == 'corestrict':
            if gen == 'block':
                continue
            rec.subspace('corestrict', src, rec.dst())
        elif op == 'kernel':
            rec.kernel(src)
        elif op == 'pT1':
            if gen == 'block' and 1 in M.block_shape:
                continue
            rec.pT1(src)
        elif op == 'pTx':
            if gen == 'rot2d' or gen == 'block' and M.block_shape[0] != M.block_shape[1]:
                continue
            rec.pTx(src)
        elif op == 'setentry':
            if len(rec.regs) < 2:
                continue
            rec.setentry(src)
        else:
            rec.apply(src)
        if rec.events[-1]['status'] != 'ok':
            return


def run(ctx):
    ops = ('create', 'kernel', 'restrict', 'corestrict')
    for g, p, q in ('scalar', 1, 1), ('rot2d', 2, 2), ('rot3d', 3, 3), ('block', 2, 3):
        nmax = 2 if g == 'scalar' and ctx.thorough else 1
        r = ctx.model('MCSparse', mc_cfg(('fsr',), p, q, 2, 3, nmax, 1, 2,
                                         'block' if g == 'scalar' else g),
                      name=f'MCSparse-sub-{g}', expect_actions=EXPECT)
        o = ops if g != 'block' else ops[:-1]
        replay(ctx, r, g, o, [('int32', 'float64'), ('int8', 'float32'), ('int64', 'float64'),
                              ('int16', 'float64')])
    histories = []
    rng = ctx.np_rng()
    for i in range(ctx.size(500, 5000)):
        rec = Recorder(random.Random(f'{ctx.seed}-{i}'), rng)
        history(rec, rec.rnd.randint(3, 8))
        histories.append(rec.events)
    ctx.validate('TraceSparse', histories, timeout=ctx.size(400, 850), chunk=800)
