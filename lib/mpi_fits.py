"""Worker of C10 (run by mpirun): collective writing and reading of FITS files."""
import json
import os
import random
import shutil
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import stage  # noqa: E402

stage.use(sys.argv[1])
from pathlib import Path  # noqa: E402

import fits_lib as F  # noqa: E402
from enc import call  # noqa: E402
from mpi4py import MPI  # noqa: E402


def scenario(comm, rnd, folder, it):
    """The same random choices are made by all the processes."""
    events = []
    paths = [os.path.join(folder, f'p{it}-{i}.fits') for i in range(2)]

    def emit(e):
        if comm.rank == 0:
            e['post'] = []
            e['files'] = [F.raw(p) for p in paths]
            events.append(e)
        comm.Barrier()

    def status(sts):
        bad = [s for s in sts if s != 'ok']
        return bad[0] if bad else 'ok'

    for _ in range(rnd.randint(1, 3)):
        n = rnd.choice([1, 2, 3, 4, 5, 7])
        shape = rnd.choice([(n,), (n, 3), (n, 2), (n, 2, 2), (n, 360), (n, 1)])
        if n == 1 and rnd.random() < 0.3:
            shape = (n, 720)
        r = F.random_array(rnd, shape=shape, dtypes=['f8', 'f8', 'f4', 'i4', 'i2', 'u1'])
        if shape[-1] >= 360:
            for k in ('cov', 'err', 'mask'):
                r[k] = []
        g = F.build(r, it)
        w, size = [], comm.size
        for k in range(size):
            w.append(n // size + (n % size > k))
        bad = rnd.random() < 0.15 and size > 1
        if bad:
            i, j = rnd.sample(range(size), 2)
            if w[i] == 0 or w[i] - 1 == w[j] and i < j:
                continue
            w[i] -= 1
            w[j] += 1
        start = sum(w[:comm.rank])
        local = g[start:start + w[comm.rank]]
        stale = rnd.random() < 0.3
        if not stale and local._header is not None:
            h = F.create_fitsheader_for(local.magnitude)
            for k in local.header:
                if k == 'MARK' or k[:5] in ('CRPIX', 'CTYPE'):
                    h[k] = local.header[k]
            local.header = h
        p = 1 if bad else 0
        o = F.observe(local)
        kind = rnd.choice([str, Path])
        # several arrays cannot be written to different files
        st, m = call(local.save, kind(paths[p]), comm=comm)
        sts = comm.allgather(st)
        locs = comm.allgather(o)
        emit({'op': 'collect', 'path': p + 1, 'locals': locs, 'status': status(sts), 'sts': sts,
              '_msg': str(m)[:200] if st != 'ok' else ''})
        if st != 'ok' or bad:
            break
        cls = type(g).__name__
        kind = rnd.choice([str, Path])

        def do():
            y = F.CLS[cls](kind(paths[0]), comm=comm)
            return {'o': F.observe(y), 'naxis': F.axes(y)}
        res = comm.allgather(call(do))
        sts = [r[0] for r in res]
        emit({'op': 'parts', 'path': 1, 'cls': cls, 'size': size, 'g': F.NOARGS,
              'parts': [r[1] for r in res] if status(sts) == 'ok' else [], 'status': status(sts),
              '_msg': str([r[1] for r in res if r[0] != 'ok'])[:300]})
        if status(sts) != 'ok':
            break
    return events


def main():
    _, _, folder, seed, count, out = sys.argv
    comm = MPI.COMM_WORLD
    histories = []
    for it in range(int(count)):
        h = scenario(comm, random.Random(f'{seed}-{comm.size}-{it}'), folder, it)
        if h:
            histories.append(h)
        if comm.rank == 0:
            for i in range(2):
                try:
                    os.remove(os.path.join(folder, f'p{it}-{i}.fits'))
                except OSError:
                    pass
        comm.Barrier()
    if comm.rank == 0:
        with open(out + '.tmp', 'w') as f:
            json.dump({'size': comm.size, 'histories': histories}, f)
        shutil.move(out + '.tmp', out)


main()
