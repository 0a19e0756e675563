#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (tool/props/*.py)."""
import importlib.util
import glob
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props, na, claimed = [], [], []
for f in sorted(glob.glob(V + '/tool/props/*.py')):
    sp = importlib.util.spec_from_file_location('p', f)
    m = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(m)
    props += m.PROPS
props.sort(key=lambda p: p['id'])
checks = []
with open(V + '/properties.jsonl', 'w') as out:
    for p in props:
        meta = p.pop('check')
        out.write(json.dumps(p) + '\n')
        if 'na' in meta:
            na.append({'property': p['id'], 'reason': meta['na']})
        else:
            checks.append({
                'property': p['id'],
                'quick_cmd': 'python3 sa/check.py %s' % p['id'],
                'thorough_cmd': 'python3 sa/check.py %s --thorough' % p['id'],
                'technique': meta['technique'], 'level': 'other', 'level_note': meta['note']})
man = {'version': 1, 'setup_cmd': 'bash sa/build.sh', 'checks': checks, 'not_applicable': na,
       'notes': 'Static analysis only: nothing of rmw_dds_common is executed by a check. No hooks: /repo carries one fix: commit and no instrumentation.'}
json.dump(man, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(props), 'properties,', len(checks), 'claimed,', len(na), 'not applicable')
