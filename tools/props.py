#!/usr/bin/env python3
"""Generate /verif/properties.jsonl and /verif/MANIFEST.json (single source)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []
SRC = 'src/pysimulators/'


def prop(id, title, statement, over, text, why, files, mechanism, observe, note=None,
         technique=None, state=()):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier={'over': over, 'text': text}, why_tests_cant=why,
        anchors={'files': [SRC + f if not f.startswith('src') else f for f in files],
                 'state': [dict(zip(('name', 'meaning', 'where'), s)) for s in state],
                 'mechanism': [{'name': n, 'where': SRC + w if not w.startswith('src') else w}
                               for n, w in mechanism],
                 'observe_at': observe, 'hook_needed': None},
        note=note, technique=technique,
    ))


def na(id, title, statement, over, text, why, files, mechanism, observe, reason):
    prop(id, title, statement, over, text, why, files, mechanism, observe)
    P[-1]['na'] = reason


exec(open(os.path.join(HERE, 'tools', 'props_data.py')).read())

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items()
                            if k not in ('note', 'technique', 'na')}) + '\n')

checks = []
for p in P:
    if 'na' in p:
        NA.append({'property': p['id'], 'reason': p['na']})
        continue
    checks.append({
        'property': p['id'],
        'quick_cmd': f'VERIF_TIER=quick /opt/venv/bin/python check.py {p["id"]}',
        'thorough_cmd': f'VERIF_TIER=thorough /opt/venv/bin/python check.py {p["id"]}',
        'evidence_file': f'evidence/{p["id"]}.json',
        'technique': p['technique'],
        'level': 'model_checking',
        'level_note': p['note'],
    })
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump({
        'version': 1,
        'setup_cmd': '/opt/venv/bin/python tools/setup.py',
        'checks': checks,
        'not_applicable': NA,
        'notes': 'TLA+ specifications in spec/, checked by TLC; drivers/ bind them to the '
                 'code, staged from /repo on every run (lib/stage.py). See DESIGN.md.',
    }, f, indent=1)
print(len(checks), 'checks', len(NA), 'not applicable')
