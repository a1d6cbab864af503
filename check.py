#!/opt/venv/bin/python
"""check.py PROPERTY: decide a property on /repo's working tree (see DESIGN.md)."""
import importlib
import json
import os
import shutil
import signal
import sys
import traceback

PYTHON = '/opt/venv/bin/python'
if os.path.realpath(sys.prefix) != '/opt/venv' and os.path.exists(PYTHON):
    os.execv(PYTHON, [PYTHON] + sys.argv)

HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
os.environ.setdefault('OMP_NUM_THREADS', '4')
os.environ.setdefault('OMP_WAIT_POLICY', 'PASSIVE')     # no active waiting when the processors are busy
os.environ.pop('PYTHONPATH', None)
sys.path[:0] = [os.path.join(HERE, 'lib'), os.path.join(HERE, 'drivers')]

import stage  # noqa: E402
from ctx import Ctx, Machinery  # noqa: E402
from par import Crash  # noqa: E402
from tlc import TLCError  # noqa: E402


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv:
        tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    ctx = Ctx(prop, tier, seed)
    scratch = None
    try:
        scratch = ctx.scratch = stage.stage()
        stage.use(scratch)
        import warnings

        import astropy.io.fits  # noqa: F401
        import numpy
        import pyoperators  # noqa: F401
        import scipy.sparse  # noqa: F401

        warnings.simplefilter('ignore')
        try:
            import pysimulators  # noqa: F401
        except Exception:
            # the package cannot be imported: every property is broken
            ctx.report(['import'], 'pysimulators cannot be imported',
                       {'traceback': traceback.format_exc()})
            return ctx.finish()
        numpy.seterr(all='ignore')
        driver = importlib.import_module(prop.lower())
        driver.run(ctx)
        return ctx.finish()
    except (Machinery, TLCError, stage.StageError) as exc:
        if ctx.violations:
            # what has been established before the failure stands
            print(f'machinery error after a violation: {exc}', file=sys.stderr)
            return ctx.finish()
        print(f'ERROR property={prop}: {exc}', file=sys.stderr)
        return 2
    except Crash as exc:
        ctx.report(['crash'], str(exc), {'function': exc.func, 'argument': exc.item})
        return ctx.finish()
    except Exception:
        traceback.print_exc()
        frames = traceback.extract_tb(sys.exc_info()[2])
        if scratch is not None and any(
            f.filename.startswith(os.path.join(scratch, 'site')) for f in frames
        ):
            # an exception out of pysimulators where none is expected
            ctx.report(['unexpected-exception'],
                       f'unexpected exception: {sys.exc_info()[1]!r}',
                       {'traceback': traceback.format_exc()})
        if ctx.violations:
            return ctx.finish()
        return 2
    finally:
        shutil.rmtree(ctx.work, ignore_errors=True)
        if scratch is not None:
            shutil.rmtree(scratch, ignore_errors=True)


FATAL = signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE, signal.SIGILL


def guarded():
    """The check is run by a child process, since a broken property may be one which ends it (wild memory access)."""
    pid = os.fork()
    if pid == 0:
        rc = main()
        sys.stdout.flush()
        sys.stderr.flush()
        os._exit(rc)
    status = os.waitpid(pid, 0)[1]
    if not os.WIFSIGNALED(status):
        return os.WEXITSTATUS(status)
    if os.WTERMSIG(status) not in FATAL:
        return 2
    prop, name = sys.argv[1], signal.Signals(os.WTERMSIG(status)).name
    replay = os.path.join(HERE, 'evidence', f'{prop}-replay.json')
    os.makedirs(os.path.dirname(replay), exist_ok=True)
    with open(replay, 'w') as f:
        json.dump([{'property': prop, 'clauses': ['crash'], 'what': f'the code ended the process by {name}',
                    'replay': {'seed': os.environ.get('VERIF_SEED', '1')}, 'key': None}], f)
    print(f'   the code ended the process by {name}')
    print(f'VIOLATION property={prop} replay={replay}')
    return 1


if __name__ == '__main__':
    rc = guarded()
    sys.stdout.flush()
    os._exit(rc)
