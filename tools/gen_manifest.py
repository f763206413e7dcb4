#!/usr/bin/env python3
"""Writes MANIFEST.json from units.py (claimed properties) and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
import units
NA = getattr(units, 'NA', {})
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
checks, na = [], []
HOOK_COMMITS = ['9f6c50a18e741c65706004c87e08957b4a6c1806']
for p in props:
    i = p['id']
    if i in units.PROPS and not i in NA:
        P = units.PROPS[i]
        checks.append({'property': i, 'quick_cmd': 'python3 check.py %s --tier quick' % i, 'thorough_cmd': 'python3 check.py %s --tier thorough' % i, 'evidence_file': 'evidence/%s.json' % i,
          'technique': P.get('technique', 'symbolic execution of the compiled LLVM IR of the real sources, every branch and assertion decided by Z3 (bit-vectors)'), 'level': 'model_checking', 'level_note': P['note']})
    else: na.append({'property': i, 'reason': NA.get(i, 'no harness built yet: this is work in progress, not a limit of the technique')})
HOOKS = {'guard': 'WH_SMALL_NODES', 'enable': '-DWH_SMALL_NODES', 'source_commits': HOOK_COMMITS}
m = {'version': 1, 'setup_cmd': 'make -s -C engine -j8', 'hooks': HOOKS, 'checks': checks, 'not_applicable': na}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1); print(len(checks), 'checks', len(na), 'na')
