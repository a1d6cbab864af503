"""Stage pysimulators from /repo's current working tree.

The Fortran extension is brought up to date with the ninja build directory that
/opt/vp/build.sh maintains (incremental) and the package is copied, together with
the extension, in a scratch directory which is then put first on sys.path.  Staging
makes new modules importable (the meson-python editable finder only knows the files
that existed when it was generated) and keeps every check away from /repo's files.
"""
import fcntl
import glob
import os
import shutil
import subprocess
import sys
import tempfile

REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = '/opt/pysimulators-build'
VENV = '/opt/venv'


class StageError(Exception):
    pass


def _env():
    env = dict(os.environ)
    env['PATH'] = f'{VENV}/bin:' + env.get('PATH', '/usr/bin:/bin')
    env['SETUPTOOLS_SCM_PRETEND_VERSION'] = '2.0.0'
    env['PIP_NO_INDEX'] = '1'
    env['PYTHONDONTWRITEBYTECODE'] = '1'
    return env


def _ninja(build):
    return subprocess.run(
        ['ninja', '-C', build], env=_env(), stdout=subprocess.PIPE,
        stderr=subprocess.STDOUT, text=True,
    )


def build_extension(scratch):
    """Return the path of the up to date _flib extension."""
    messages = ''
    if REPO == '/repo' and os.path.exists(os.path.join(BUILD, 'build.ninja')):
        with open('/tmp/.pysimulators-verif.lock', 'w') as lock:
            fcntl.flock(lock, fcntl.LOCK_EX)
            p = _ninja(BUILD)
        if p.returncode == 0:
            so = glob.glob(os.path.join(BUILD, 'src', 'flib', '_flib*.so'))
            if so:
                return so[0]
        messages = p.stdout[-3000:]
    build = os.path.join(scratch, 'build')
    p = subprocess.run(
        [f'{VENV}/bin/meson', 'setup', build, REPO], env=_env(),
        stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
    )
    if p.returncode == 0:
        p = _ninja(build)
    so = glob.glob(os.path.join(build, 'src', 'flib', '_flib*.so'))
    if p.returncode or not so:
        raise StageError('cannot build pysimulators:\n' + messages + p.stdout[-3000:])
    return so[0]


def stage():
    """Copy the package in a scratch directory and return this directory."""
    scratch = tempfile.mkdtemp(prefix='pysimulators-verif-')
    so = build_extension(scratch)
    dest = os.path.join(scratch, 'site', 'pysimulators')
    shutil.copytree(
        os.path.join(REPO, 'src', 'pysimulators'), dest,
        ignore=shutil.ignore_patterns('__pycache__'),
    )
    shutil.copy2(so, dest)
    shutil.rmtree(os.path.join(scratch, 'build'), ignore_errors=True)
    return scratch


def use(scratch):
    """Make ``import pysimulators`` load the staged copy in this process."""
    sys.meta_path[:] = [
        f for f in sys.meta_path
        if not (type(f).__name__ == 'MesonpyMetaFinder'
                and getattr(f, '_name', '') == 'pysimulators')
    ]
    site = os.path.join(scratch, 'site')
    if site not in sys.path:
        sys.path.insert(0, site)
