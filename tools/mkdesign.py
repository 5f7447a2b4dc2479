#!/usr/bin/env python3
"""Fills the generated sections of DESIGN.md (per-property text from tools/design_props.md, fixes, planted changes)."""
import json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = open(H + '/DESIGN.md').read()
def section(start, end, body):
    global t
    a = t.index(start) + len(start)
    b = t.index(end, a)
    t = t[:a] + '\n\n' + body.strip() + '\n\n' + t[b:]
fixes = '\n'.join('- ' + l[7:].strip() for l in open(H + '/known_findings.txt') if l.startswith('fixed:'))
props = open(H + '/tools/design_props.md').read()
seeds = ['| change | property | needs | caught by |', '|---|---|---|---|']
res = {}
p = H + '/tools/seed_results.json'
if os.path.exists(p):
    res = json.load(open(p))
for d in sorted(os.listdir(H + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (H, d)))
    seeds.append('| %s: %s | %s | %s | %s |' % (d, m['what_it_breaks'], m['property'], m['needs'], res.get(d, '-')))
if '@@PROPS@@' in t:
    t = t.replace('@@PROPS@@', '## The properties\n\n-').replace('@@FIXES@@', '-').replace('@@SEEDS@@', '-\n\n## End\n')
section('## The properties', '## Defects found', props)
section("also in known_findings.txt)", '## Oddities', fixes)
section('and what catches them', '## End', '\n'.join(seeds))
open(H + '/DESIGN.md', 'w').write(t)
