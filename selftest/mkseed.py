#!/usr/bin/env python3
"""Writes seeded/<id>/ from the seed tables (seeds_*.py): patch.diff, demo.sh, demo.cpp, meta.json.  Development aid only."""
import difflib
import glob
import importlib.util
import json
import os
import shutil
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = '/repo/'
only = sys.argv[1] if len(sys.argv) > 1 else ''
for f in sorted(glob.glob(V + '/selftest/seeds_*.py')):
    sp = importlib.util.spec_from_file_location('s', f)
    m = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(m)
    for s in m.SEEDS:
        if only not in s['id']:
            continue
        d = V + '/seeded/' + s['id']
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        diff = ''
        byfile = {}
        for fl, old, new in s['edits']:
            t = byfile.setdefault(fl, [open(R + fl).read()] * 2)
            assert old in t[1], (s['id'], old)
            byfile[fl] = [t[0], t[1].replace(old, new, 1)]
        for fl, (a, b) in byfile.items():
            diff += ''.join(difflib.unified_diff(a.splitlines(True), b.splitlines(True), 'a/' + fl, 'b/' + fl))
        open(d + '/patch.diff', 'w').write(diff)
        for n, text in s['files'].items():
            open(d + '/' + n, 'w').write(text)
            if n.endswith('.sh'):
                os.chmod(d + '/' + n, 0o755)
        for src, dst in s.get('copy', ()):
            shutil.copytree(src, d + '/' + dst) if os.path.isdir(src) else shutil.copy(src, d + '/' + dst)
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        print(s['id'])
