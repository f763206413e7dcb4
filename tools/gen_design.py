#!/usr/bin/env python3
# DESIGN.md from tools/design/*.md, units.py, known_findings.txt and seeded/.
import os, sys, json, glob
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, R); os.chdir(R)
import units
props = {d['id']: d for d in map(json.loads, open('properties.jsonl'))}
man = json.load(open('MANIFEST.json'))
how = dict(l.rstrip('\n').split(': ', 1) for l in open('tools/design/props.md') if ': ' in l)
o = open('tools/design/head.md').read().rstrip() + '\n\n## 3. The properties\n\n'
for p, d in sorted(props.items()):
    o += '### %s %s\n\n' % (p, d['title'])
    if p in units.PROPS:
        u = units.PROPS[p]; q, t = u['units']('quick'), u['units']('thorough')
        src = sorted(set(x['src'] for x in q)); o += how.get(p, '') + '\n\n' if p in how else ''
        o += '- Bounds: %s\n- Harness: %s; %d units in the quick tier, %d in the thorough one, at most %d s and %d s each.\n' % (u.get('note', ''), ', '.join('`harness/%s`' % x for x in src), len(q), len(t), max(x.get('time', 60) for x in q), max(x.get('time', 60) for x in t))
        for a in u.get('assumptions', []): o += '- Assumption: %s\n' % a
    else: o += 'Not claimed: %s\n' % next((n['reason'] for n in man.get('not_applicable', []) if n.get('property', n.get('id')) == p or p in n.values()), '')
    o += '\n'
o += '## 4. Genuine defects found\n\nEach was reproduced against the real code before it was repaired by one small `fix:` commit in /repo. The property named is the one whose check found it.\n\n'
for l in open('known_findings.txt'):
    if l.startswith(('fixed:', 'known:')): o += '- ' + l.strip() + '\n'
o += '\n## 5. Planted bugs\n\n| bug | property | needs | caught by |\n|---|---|---|---|\n'
caught = json.load(open('tools/design/caught.json')) if os.path.exists('tools/design/caught.json') else {}
for m in sorted(glob.glob('seeded/*/meta.json')):
    b = m.split('/')[1]; d = json.load(open(m)); o += '| %s | %s | %s | %s |\n' % (b, d['property'], d['needs'].replace('|', '/'), caught.get(b, d['property']))
o += '\n' + open('tools/design/tail.md').read()
open('DESIGN.md', 'w').write(o); print(len(o), 'bytes')
