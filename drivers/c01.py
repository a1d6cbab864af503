"""C01: index and attributes of a packed table from its selection and ordering."""
import random

import tables_lib
from tables_lib import Recorder


def run(ctx):
    # 1. every creation within small constants: design checked, transitions replayed
    shapes = ctx.size([(3,), (2, 2), (0,), (1,)], [(3,), (4,), (2, 2), (1, 3), (0,), (1,)])
    r = ctx.model(
        'MCTables',
        tables_lib.mc_cfg(shapes, ctx.size(4, 6), (-2, -1, 1, 2), 2,
                          0, 0, 3),
        name='MCTables-create', expect_actions=['CreateOK', 'CreateInvalid'],
    )
    tables_lib.replay_transitions(ctx, r)
    r = ctx.model(
        'MCTables',
        tables_lib.mc_cfg([(3,), (2, 2)] if ctx.thorough else [(3,), (2, 1)],
                          ctx.size(1, 2), (-1, 1), ctx.size(1, 2), 2, 0, 3),
        name='MCTables-ordering', expect_actions=['CreateOK'],
    )
    tables_lib.replay_transitions(ctx, r)

    # 2. recorded creations, larger and of every class, against the specification
    histories = []
    rng = ctx.np_rng()
    for i in range(ctx.size(2500, 25000)):
        rec = Recorder(random.Random(f'{ctx.seed}-{i}'), rng)
        if i % 4 == 0:
            rec.dims()
        rec.create(invalid=0.05)
        histories.append(rec.events)
    ctx.validate('TraceTables', histories, timeout=ctx.size(300, 800), chunk=5000)
