#!/usr/bin/env python3
"""Fill the tables of DESIGN.md (planted bugs, defects) from the committed files."""
import glob
import json
import re

p = '/verif/DESIGN.md'
s = open(p).read()
rows = []
for f in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m = json.load(open(f))
    i = f.split('/')[-2]
    missed = {'C13-b': 'the check of C13, before maps on both sides of 180 degrees were combined',
              'C15-b': 'the check of C15, before explicit sample times'}.get(i, '')
    rows.append('| {} | {} | {} |'.format(i, re.sub(r'\s+', ' ', m['needs']).replace('|', '/'), missed))
fixes = ['- ' + x.removeprefix('fixed: property=') for x in json.load(open('/verif/known_findings.json'))['fixed']]


def put(s, name, lines):
    a, b = f'<!--{name}-->', f'<!--/{name}-->'
    if b not in s:
        s = s.replace(a, a + '\n' + b)
    i, j = s.index(a) + len(a), s.index(b)
    return s[:i] + '\n' + '\n'.join(lines) + '\n' + s[j:]


# (a comment would interrupt the table: the header is written here)
s = s.replace('| Change | Needs | First missed by |\n|---|---|---|\n<!--BUGS-->', '<!--BUGS-->')
s = put(s, 'BUGS', ['| Change | Needs | First missed by |', '|---|---|---|', *rows])
s = put(s, 'FIXES', fixes)
open(p, 'w').write(s)
