#!/usr/bin/env python3
"""
mkbug.py ID PROPERTY: record the uncommitted changes of /repo as the planted bug ID.

Usage: edit /repo, write seeded/ID/demo.py (or demo.sh) and meta fields, then run it.
With --try, checks everything (build, stable tests, demo on both trees, the check).
"""
import argparse
import json
import os
import subprocess
import sys

V = '/verif'
ap = argparse.ArgumentParser()
ap.add_argument('id')
ap.add_argument('--notests', action='store_true')
ap.add_argument('--nocheck', action='store_true')
a = ap.parse_args()
d = f'{V}/seeded/{a.id}'
patch = f'{d}/patch.diff'
meta = json.load(open(f'{d}/meta.json'))


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, text=True, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, **kw)


assert sh('git -C /repo status --porcelain').stdout == '', 'dirty /repo'


def demo():
    p = sh(f'cd /repo && bash {d}/demo.sh')
    return p


def build():
    p = sh('bash /opt/vp/build.sh')
    if p.returncode:
        print(p.stdout[-2000:])
    return p.returncode


ok = True
assert build() == 0
p = demo()
print('demo on the unchanged tree:', p.returncode)
if p.returncode:
    print(p.stdout[-1500:])
    sys.exit(1)
p = sh(f'git -C /repo apply {patch}')
if p.returncode:
    print(p.stdout)
    sys.exit(1)
try:
    print('build:', build())
    p = demo()
    print('demo with the patch:', p.returncode, p.stdout.strip().splitlines()[-1:] )
    ok &= p.returncode != 0
    if not a.notests:
        sh('bash /opt/vp/test.sh /tmp/trybug.json')
        out = json.load(open('/tmp/trybug.json'))
        base = json.load(open('/opt/vp/BASELINE.json'))
        bl = base.get('stable') or base.get('passed') or base.get('tests') or base
        passed = set(out.get('passed', []))
        missing = sorted(set(bl) - passed)
        missing = [t for t in missing if 'test_block[inner_block_shape7' not in t]   # not deterministic
        print('stable tests failing:', len(missing), missing[:5])
        ok &= not missing
    if not a.nocheck:
        p = sh(f'cd {V} && VERIF_SEED=1 VERIF_TIER=quick python3 check.py {meta["property"]}')
        print('check:', p.returncode, [l for l in p.stdout.splitlines()
                                       if 'VIOLATION' in l or 'ERROR' in l],
              p.stdout.splitlines()[:1])
        ok &= p.returncode == 1
finally:
    sh('git -C /repo checkout -- .')
    build()
print('RESULT', a.id, 'OK' if ok else 'NOT OK')
