"""Run a worker script with a real MPI library."""
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ENV = {'PYTHONPATH': '/opt/mpi4py', 'OMPI_MCA_btl': 'self,vader', 'OMPI_MCA_plm': 'isolated',
       'OMPI_MCA_btl_vader_single_copy_mechanism': 'none', 'OMPI_MCA_rmaps_base_oversubscribe': '1',
       'OMP_NUM_THREADS': '1', 'PYTHONDONTWRITEBYTECODE': '1'}


def mpirun(size, args, timeout):
    """(return code or None on timeout, output)"""
    env = {**os.environ, **ENV}
    cmd = ['mpirun', '--allow-run-as-root', '--oversubscribe', '-np', str(size), sys.executable, *args]
    p = subprocess.Popen(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                         start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        out, _ = p.communicate()
        return None, out


def available(size=2):
    """MPI works here."""
    if shutil.which('mpirun') is None or not os.path.isdir('/opt/mpi4py'):
        return False
    rc, out = mpirun(size, ['-c', 'from mpi4py import MPI; MPI.COMM_WORLD.Barrier();'
                            'print("size", MPI.COMM_WORLD.size)'], 60)
    return rc == 0 and out.count(f'size {size}') == size
