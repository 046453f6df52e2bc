#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and the property modules (developer tool)."""
import json, os, importlib, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import jsonschema
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl')) if l.strip()]
ps = json.load(open('/root/.vp/PROPERTIES.schema.json'))
for p in props:
    jsonschema.validate(p, ps)
    assert p['statement'].count('. ') <= 3, p['id']
na = json.load(open(os.path.join(HERE, 'spec', 'not_applicable.json')))
checks, nas = [], []
for p in props:
    i = p['id']
    for f in p['anchors']['files']:
        assert os.path.exists('/repo/' + f), f
    if os.path.exists(os.path.join(HERE, 'pfstat', 'props', i.lower() + '.py')) and i not in na:
        m = importlib.import_module('pfstat.props.' + i.lower())
        checks.append({'property': i, 'quick_cmd': 'python3 check.py %s --tier quick' % i,
                       'thorough_cmd': 'python3 check.py %s --tier thorough' % i,
                       'technique': m.TECHNIQUE, 'level': getattr(m, 'LEVEL', 'other'), 'level_note': m.NOTE})
    else:
        nas.append({'property': i, 'reason': na.get(i, 'check not built yet')})
man = {'version': 1, 'setup_cmd': 'python3 -m pfstat.extract', 'checks': checks, 'not_applicable': nas,
       'notes': 'Static analysis only: facts are extracted from /repo sources by a clang tool on every run. '
                'No hooks in /repo; /repo carries fix: commits only (known_findings.json lists them).'}
jsonschema.validate(man, json.load(open('/root/.vp/MANIFEST.schema.json')))
json.dump(man, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(nas), 'not applicable')
