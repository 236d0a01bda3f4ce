#!/usr/bin/env python3
"""Compose DESIGN.md from tools/design_*.md, props.py, checks.py and tools/catches.txt."""
import os, sys, json, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path[:0] = [V, V + '/tools']
from props import PROPS, NA
from checks import CHECKS, QUICK_S, THOROUGH_S
from design_props import HOW
o = [open(V + '/tools/design_head.md').read().rstrip(), '', '## Per property', '']
na = dict(NA)
for p in PROPS:
    i = p['id']; o += ['### %s %s' % (i, p['title']), '']
    if i in na: o += ['Not applicable: ' + na[i], '']; continue
    o += [' '.join(HOW[i].split()), '', 'Scenarios: ' + ', '.join('`%s`' % s for s in dict.fromkeys(CHECKS[i]['scens'])) + '. Cost: %d s quick, %d s thorough.' % (CHECKS[i].get('quick_s', QUICK_S), CHECKS[i].get('thorough_s', THOROUGH_S)), '']
o += [open(V + '/tools/design_tail.md').read().rstrip(), '', '## Planted bugs and what catches them', '', '| bug | property | needs | caught by its check |', '|---|---|---|---|']
res = {}
if os.path.exists(V + '/tools/catches.txt'):
    for l in open(V + '/tools/catches.txt'):
        a = l.strip().split(None, 1)
        if len(a) == 2: res[a[0]] = a[1]
for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(d)); i = os.path.basename(os.path.dirname(d))
    o += ['| %s | %s | %s | %s |' % (i, m['property'], m['needs'].replace('|', '/'), res.get(i, 'see text'))]
open(V + '/DESIGN.md', 'w').write('\n'.join(o) + '\n')
