#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables in props.py."""
import json
import os
import sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, 'tools'))
from props import PROPS, TECH, GROUPS

with open(os.path.join(H, 'properties.jsonl'), 'w') as o:
    for p in PROPS:
        d = {'id': p['id'], 'title': p['title'], 'statement': p['statement'],
             'quantifier': {'over': p['over'], 'text': p['q']}, 'why_tests_cant': p['why'],
             'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']],
                         'hook_needed': None}}
        assert len(p['title']) <= 80, p['id']
        assert len(p['statement'].split('. ')) <= 3, (p['id'], len(p['statement'].split('. ')))
        o.write(json.dumps(d, ensure_ascii=False) + '\n')
checks, na = [], []
for p in PROPS:
    if p.get('na'):
        na.append({'property': p['id'], 'reason': p['na']})
    else:
        checks.append({'property': p['id'], 'quick_cmd': 'python3 run.py %s quick' % p['id'],
                       'thorough_cmd': 'python3 run.py %s thorough' % p['id'],
                       'technique': TECH[p['tech']], 'level': p.get('level', 'other'), 'level_note': p['note']})
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'All checks are static: they compile the current tree with its own toolchain (rustc 1.70, the build\'s '
              'dependency set) to MIR and rustdoc JSON and decide each property from that; nothing of the repository is run. '
              'No hooks in the repository are needed.'}
with open(os.path.join(H, 'MANIFEST.json'), 'w') as o:
    json.dump(m, o, indent=1, ensure_ascii=False)
    o.write('\n')
print(len(checks), 'checks,', len(na), 'not applicable')

# DESIGN.md = head + one section per property + tail
import glob
seeds = {}
for f in sorted(glob.glob(os.path.join(H, 'seeded', '*', 'meta.json'))):
    d = json.load(open(f))
    seeds.setdefault(d['property'], []).append((os.path.basename(os.path.dirname(f)), d['needs']))
T = lambda n: open(os.path.join(H, 'tools', n)).read()
with open(os.path.join(H, 'DESIGN.md'), 'w') as o:
    o.write(T('design_head.md'))
    group = None
    for p in PROPS:
        if p['id'][0] != group:
            group = p['id'][0]
            o.write('### %s\n\n' % GROUPS[group])
        o.write('**%s: %s.** %s\n' % (p['id'], p['title'], 'Not applicable: ' + p['na'] if p.get('na') else p['design']))
        if not p.get('na'):
            o.write('*Level:* %s. *Limits:* %s\n' % (p.get('level', 'other'), p['note']))
            s = seeds.get(p['id'], [])
            if s:
                o.write('*Planted bugs caught:* %s\n' % '; '.join('`%s` (%s)' % x for x in s))
        o.write('\n')
    o.write(T('design_tail.md'))
