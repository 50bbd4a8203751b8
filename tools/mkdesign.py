#!/usr/bin/env python3-vt
"""mkdesign.py: DESIGN.md from tools/DESIGN.tmpl, engine/props.py and seeded/*/meta.json"""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'engine'))
import props

WHY = json.load(open(os.path.join(V, 'tools', 'why.json')))
rows, bounded = [], []
for l in open(os.path.join(V, 'properties.jsonl')):
    d = json.loads(l)
    P = props.PROPS[d['id']]
    lev = 'P' if not P.bounded else ('P+b' if P.funcs or P.lemmas else 'b')
    what = ''
    if P.funcs:
        what += 'proved: ' + ', '.join('`%s`' % f for f in P.funcs) + '. '
    if P.lemmas:
        what += 'lemmas: ' + ', '.join('`%s`' % f for f in P.lemmas) + '. '
    if P.bounded:
        what += 'bounded: %s.' % P.bounded
    rows.append('| %s %s | %s | %s |' % (d['id'], d['title'], lev, what + (' ' + WHY['how'][d['id']] if d['id'] in WHY['how'] else '')))
    if P.bounded:
        bounded.append('* **%s** %s' % (d['id'], WHY['bounded'].get(d['id'], 'not brought within reach of the engine.')))
seeds = ['| change | property | needs | caught by |', '|---|---|---|---|']
for s in sorted(os.listdir(os.path.join(V, 'seeded'))):
    m = json.load(open(os.path.join(V, 'seeded', s, 'meta.json')))
    seeds.append('| %s | %s | %s | %s |' % (s, m['property'], m['needs'], WHY['caught'].get(s, 'check %s, with a failing input' % m['property'])))
t = open(os.path.join(V, 'tools', 'DESIGN.tmpl')).read()
t = t.replace('@TABLE@', '\n'.join(rows)).replace('@BOUNDED@', '\n'.join(bounded)).replace('@SEEDS@', '\n'.join(seeds))
open(os.path.join(V, 'DESIGN.md'), 'w').write(t)
