#!/usr/bin/env python3
"""Writes DESIGN.md from design_head.md, the property table, evidence files (dir in argv[1]) and design_tail.md."""
import json, os, sys, glob
here = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, here)
from props_data import PROPS, NA, BASE
ev = sys.argv[1]
out = [open(here + '/design_head.md').read()]
for p in sorted(PROPS, key=lambda p: p['id']):
    d = json.load(open('%s/%s.json' % (ev, p['id'])))
    c = d['coverage']
    out.append('### %s %s\n\n%s\n\n' % (p['id'], p['title'], p['statement']))
    out.append('*Method*: %s. Quantified over %s. *Rules*:\n\n' % (p['technique'], p['quantifier']['text']))
    for r in c['rules']:
        out.append('- `%s`: %s (%d)\n' % (r['rule'], r['text'], r['instances']))
    n = len(c['functions_analysed']) if isinstance(c['functions_analysed'], list) else c['functions_analysed']
    ob = c['obligations']; ob = len(ob) if isinstance(ob, list) else ob
    out.append('\n*Analysed*: %s functions, %s obligations, about %.0f s. *Beyond tests*: %s' % (n, ob, d['wall_s'], p['why_tests_cant']))
    note = p['note'].replace(BASE, '').strip()
    out.append((' *Bounds*: ' + note if note else '') + '\n\n')
out.append('## Not applicable\n\n')
for p in NA:
    out.append('- **%s %s**: %s\n' % (p['id'], p['title'], p['reason']))
rows = ['| seed | property | what it breaks | caught by |', '|---|---|---|---|']
for f in sorted(glob.glob(here + '/../seeded/*/meta.json')):
    m = json.load(open(f))
    rows.append('| %s | %s | %s | %s |' % (f.split('/')[-2], m['property'], m['what_it_breaks'], m['property'] + ' check'))
out.append('\n' + open(here + '/design_tail.md').read().replace('SEEDTABLE', '\n'.join(rows)))
open(here + '/../DESIGN.md', 'w').write(''.join(out))
