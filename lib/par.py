"""Recording of histories by several processes."""
import concurrent.futures
import ctypes
import functools
import multiprocessing
import os
from concurrent.futures.process import BrokenProcessPool

import fakecomm
import numpy as np

PROCS = min(8, os.cpu_count() or 1)


@functools.cache
def _libgomp():
    paths = {'libgomp.so.1'}
    with open('/proc/self/maps') as f:
        paths |= {x[-1] for x in (line.split() for line in f) if 'libgomp' in x[-1]}
    out = []
    for path in paths:
        try:
            out.append(ctypes.CDLL(path))
        except OSError:
            pass
    return out


def set_threads(n):
    """OpenMP threads of the parallel sections of this thread, whatever the copies of the library which are loaded."""
    for lib in _libgomp():
        lib.omp_set_num_threads(n)


def _warm(threads):
    np.seterr(all='ignore')
    set_threads(threads)
    fakecomm.ON_START.append(lambda: set_threads(threads))


class Crash(Exception):
    """The process which executed an item was ended by a signal."""

    def __init__(self, func, item):
        Exception.__init__(self, f'process ended by a signal while executing {item!r}'[:500])
        self.func = getattr(func, 'func', func).__qualname__
        self.item = repr(item)[:5000]


def _chunk(func, items):
    return [func(x) for x in items]


def _executor(procs, threads):
    return concurrent.futures.ProcessPoolExecutor(
        procs, multiprocessing.get_context('fork'), _warm, (threads,))


def _locate(func, items, threads):
    """Results of the items, executed by another process, or the first one which ends it."""
    try:
        with _executor(1, threads) as pool:
            return pool.submit(_chunk, func, items).result()
    except BrokenProcessPool:
        if len(items) == 1:
            raise Crash(func, items[0]) from None
    out = []
    for x in items:
        out += _locate(func, [x], threads)
    return out


def pmap(func, items, chunksize=8, procs=PROCS, threads=1):
    """
    [func(x) for x in items], by forked processes: the order and the results do not
    depend on their number.  To be called before any parallel (OpenMP) computation
    by this process.
    """
    items = list(items)
    if procs <= 1 or len(items) < 2 * chunksize:
        return [func(x) for x in items]
    chunks = [items[i:i + chunksize] for i in range(0, len(items), chunksize)]
    out = []
    with _executor(procs, threads) as pool:
        futures = []
        try:
            for c in chunks:
                futures.append(pool.submit(_chunk, func, c))
        except BrokenProcessPool:
            pass
        concurrent.futures.wait(futures)
    for i, c in enumerate(chunks):
        if i < len(futures) and not futures[i].cancelled() and not isinstance(futures[i].exception(), BrokenProcessPool):
            out += futures[i].result()
        else:
            out += _locate(func, c, threads)
    return out
