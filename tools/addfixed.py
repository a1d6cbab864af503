#!/usr/bin/env python3
"""addfixed.py PROPERTY COMMIT WHAT: record a repaired defect (never run by a check)."""
import json
import sys

p = '/verif/known_findings.json'
d = json.load(open(p))
d['fixed'].append('fixed: property={} {} {}'.format(*sys.argv[1:4]))
json.dump(d, open(p, 'w'), indent=1)
open(p, 'a').write('\n')
