#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the drivers that exist."""
import json, os, re
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
props = [json.loads(x) for x in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    d = os.path.join(V, 'harness', 'drivers', p['id'].lower() + '.py')
    if os.path.exists(d):
        s = open(d).read()
        m = re.search(r'^NOTE = \(?((?:\s*["\'].*["\']\s*)+)\)?', s, re.M)
        note = eval('(' + m[1] + ')') if m else ''
        models = sorted(set(re.findall(r"module='(MC\w+)'", s)))
        tech = f'TLA+ trace validation (TLC, spec/T{p["id"][1:]}.tla) of recorded executions'
        if models:
            tech += ' + TLC model checking of ' + ', '.join(f'spec/{m}.tla' for m in models)
        checks.append(dict(property=p['id'],
                           quick_cmd=f'/opt/venv/bin/python harness/run.py {p["id"]} --tier quick',
                           thorough_cmd=f'/opt/venv/bin/python harness/run.py {p["id"]} --tier thorough',
                           technique=tech, level='model_checking',
                           level_note=note or 'The design model is checked exhaustively for the constants of its .cfg; the code is bound by TLC '
                           'deciding every recorded execution (seeded sampling of inputs/histories, not exhaustive). Trusts the recorder '
                           '(projection of public API results) and TLC.'))
    else:
        na.append(dict(property=p['id'], reason='not built yet'))
m = dict(version=1, setup_cmd='bash harness/setup.sh', checks=checks, not_applicable=na,
         notes='All specifications are TLA+ (spec/), checked by TLC; harness/run.py is the single entry point.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
