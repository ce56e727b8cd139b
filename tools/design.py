#!/usr/bin/env python3
"""fills the tables of DESIGN.md: python3 tools/design.py HEAD TAIL"""
import json, glob, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = {json.loads(l)['id']: json.loads(l) for l in open(V + '/properties.jsonl')}
man = json.load(open(V + '/MANIFEST.json'))
tech = {c['property']: c['technique'].split(': ', 1)[1] for c in man['checks']}
out = [open(sys.argv[1]).read()]
for pid in sorted(tech):
    ev = json.load(open('%s/evidence/%s.json' % (V, pid)))
    cov = ev['coverage']
    out.append('### %s %s\n\n*%s.* %d entry points, %d functions, about %.0f s.\n' % (
        pid, props[pid]['title'], tech[pid][0].upper() + tech[pid][1:], cov['entry_points'], cov['functions_analysed'],
        max(1, ev['wall_s'])))
    for r in cov['rules']:
        out.append('* ' + r)
    out.append('')
tail = open(sys.argv[2]).read()
fx = json.load(open(V + '/known_findings.json'))['fixed']
tail = tail.replace('FIXES', '\n'.join('* %s: %s (%s)' % (
    x.split()[1].split('=')[1], x.split(' ', 3)[3], x.split()[2]) for x in fx))
seeds = ['| bug | property | needs | caught by |', '|---|---|---|---|']
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(f))
    seeds.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(f)), m['property'], m['needs'], m['property']))
tail = tail.replace('SEEDS', '\n'.join(seeds))
open(V + '/DESIGN.md', 'w').write('\n'.join(out) + tail)
