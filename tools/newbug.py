#!/usr/bin/env python3
"""newbug.py FILE...: create seeded/<ID> from a description (exec'd Python file defining
ID, PROP, EDITS=[(file, old, new)], NEEDS, BREAKS, DEMO)."""
import json
import os
import subprocess
import sys

for f in sys.argv[1:]:
    ns = {}
    exec(open(f).read(), ns)
    d = f'/verif/seeded/{ns["ID"]}'
    os.makedirs(d, exist_ok=True)
    try:
        for name, old, new in ns['EDITS']:
            p = f'/repo/src/pysimulators/{name}' if not name.startswith('src/') else f'/repo/{name}'
            s = open(p).read()
            assert s.count(old) == 1, (f, name, s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        diff = subprocess.run(['git', '-C', '/repo', 'diff'], text=True,
                              stdout=subprocess.PIPE).stdout
    finally:
        subprocess.run(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
    open(d + '/patch.diff', 'w').write(diff)
    json.dump({'property': ns['PROP'], 'needs': ns['NEEDS'], 'what_it_breaks': ns['BREAKS']},
              open(d + '/meta.json', 'w'), indent=1)
    open(d + '/demo.py', 'w').write(ns['DEMO'].lstrip('\n'))
    open(d + '/demo.sh', 'w').write(ns.get('SH', '''#!/bin/bash
. /opt/vp/env.sh
exec timeout 250 python -W ignore "$(cd "$(dirname "$0")" && pwd)/demo.py" >/dev/null 2>&1
'''))
    print('written', ns['ID'])
