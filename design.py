#!/usr/bin/env python3
"""Writes DESIGN.md: DESIGN.head.md, one section per property (from
properties.py and the registered families of the harness, given as the path of
a built harness), and the table of planted bugs."""
import glob, json, os, subprocess, sys

HERE = os.path.dirname(os.path.abspath(__file__))
C, S, P, L = 'internals/compiler/', 'internals/semantic/', 'internals/parser/', 'internals/lexer/'
IR = TRUST = ''
PROPS = []


def prop(id, title, statement, over, quant, why, files, mech, technique, note, level='model_checking'):
    PROPS.append(dict(id=id, title=title, quant=quant, why=why, mech=mech, technique=technique, note=note))


exec(open(HERE + '/properties.py').read())
fam = json.loads(subprocess.check_output([sys.argv[1], 'rules']))
cost = json.load(open(HERE + '/costs.json'))
out = [open(HERE + '/DESIGN.head.md').read().rstrip(), '', '## The properties', '']
for p in sorted(PROPS, key=lambda p: p['id']):
    f = fam[p['id']]
    out += ['### %s %s' % (p['id'], p['title']), '']
    out += ['*Decided by* ' + p['technique'] + '.', '']
    out += ['*Enumerated.* ' + (f['Rule'] if len(f['Rule']) > 120 else p['quant'] + ' (' + f['Rule'] + '.)'), '']
    n = ' '.join(x for x in [p['note'].strip(), f['Note'].strip()] if x)
    out += ['*Bounds, oracle, limits.* ' + n, '']
    out += ['*Why the tests cannot.* ' + p['why'] + ' Anchors: ' + ', '.join('%s (`%s`)' % m for m in p['mech']) + '.', '']
    c = cost.get(p['id'], {})
    if c:
        out += ['*Cost on 8 cores.* ' + '; '.join('%s: %s' % (t, c[t]) for t in ('quick', 'thorough') if t in c) + '.', '']
out += ['## Planted bugs', '', open(HERE + '/SEEDS.head.md').read().rstrip(), '', '| bug | property | what it needs | caught by its quick check |', '|---|---|---|---|']
caught = json.load(open(HERE + '/catches.json'))
for d in sorted(glob.glob(HERE + '/seeded/*/meta.json')):
    i = os.path.basename(os.path.dirname(d))
    m = json.load(open(d))
    out.append('| %s | %s | %s | %s |' % (i, m['property'], m['needs'].replace('|', '\\|'), caught.get(i, 'not run')))
open(HERE + '/DESIGN.md', 'w').write('\n'.join(out) + '\n')
