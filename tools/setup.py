#!/opt/venv/bin/python
"""Check that the tools are there and that every specification parses."""
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'lib'))
sys.dont_write_bytecode = True
import tlc  # noqa: E402

os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
bad = 0
for name in sorted(os.listdir(tlc.SPEC)):
    if not name.endswith('.tla'):
        continue
    p = subprocess.run(
        ['java', '-cp', tlc.JAR, 'tla2sany.SANY', name], cwd=tlc.SPEC,
        stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
    )
    if p.returncode or 'rror' in p.stdout or 'xception' in p.stdout:
        print(p.stdout)
        bad = 1
sys.exit(bad)
