"""C17: observations in the MADMAP1 format."""
import functools
import random

import mm_lib
from par import pmap

CFG = 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n ND = {}\n NB = {}\n NS = {}\n NPPS = {}\n NPIX = {}\n' \
      'INVARIANTS InvAdjoint InvLayout InvSymmetric InvBlocks\n'


def once(m, seed):
    """Observed outcome of a transition of the model, when it is not the expected one."""
    rnd = random.Random(f'{seed}-{m}')
    f = m['f']
    files = mm_lib.Files(f, rnd)
    try:
        obs = files.open()
        e = {'op': m['op'], 'types': False, 'obs': [], 'map': m['x'], 'tod': m['x']}
        st, out = mm_lib.use(files, obs, e, rnd)
        return None if st == 'ok' and e['obs'] == m['y'] and e['types'] else str((st, e['obs'], e['types'], str(out)[:100]))
    except Exception as exc:
        return repr(exc)
    finally:
        files.close()


def history(i, seed):
    return mm_lib.history(random.Random(f'{seed}-{i}'))


def run(ctx):
    r = ctx.model('MCMadMap', CFG.format(*ctx.size((2, 2, 2, 2, 2), (2, 3, 3, 2, 2))),
                  expect_actions=['ReadSignal', 'Forth', 'BackProject', 'Weight'], timeout=800)
    ms = r.messages
    cap = ctx.size(3000, 20000)
    if len(ms) > cap:
        ms = ctx.rnd.sample(ms, cap)
    ctx.coverage['model_transitions_replayed'] += len(ms)
    for m, bad in zip(ms, pmap(functools.partial(once, seed=ctx.seed), ms)):
        if bad:
            ctx.report([m['op']], f'MCMadMap: {m["op"]} observed {bad}',
                       {'spec': 'MCMadMap', 'transition': m, 'observed': bad})
    histories = pmap(functools.partial(history, seed=ctx.seed), range(ctx.size(2000, 20000)))
    ctx.validate('TraceMadMap', histories, timeout=ctx.size(400, 850), chunk=2000)
