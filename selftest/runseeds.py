#!/usr/bin/env python3
"""Runs every check on each planted bug of seeded/ (scratch copies).  Usage: runseeds.py [SUBSTR].  Development aid only."""
import glob
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/sa')
import rules


def one(d):
    meta = json.load(open(d + '/meta.json'))
    tmp = tempfile.mkdtemp(prefix='sa.', dir='/tmp')
    try:
        shutil.copytree('/repo/rmw_dds_common', tmp + '/rmw_dds_common')
        r = subprocess.run(['patch', '-p1', '-s', '-i', d + '/patch.diff'], cwd=tmp, capture_output=True, text=True)
        base = [l.split('/')[-1].split('.')[0] for l in open(d + '/patch.diff') if l.startswith('+++')]
        res = {}
        for p in sorted(rules.RULES):
            if p != meta['property'] and not set(base) & set(rules.RULES[p][1]):
                continue
            try:
                q = subprocess.run([sys.executable, V + '/sa/check.py', p], capture_output=True, text=True, cwd=V, timeout=300,
                                   env=dict(os.environ, SA_REPO=tmp, SA_EVIDENCE=tmp + '/ev'))
                if q.returncode:
                    res[p] = (q.returncode, q.stdout)
            except subprocess.TimeoutExpired:
                res[p] = (99, '')
        return d, meta['property'], r.stderr, res
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


ds = [d for d in sorted(glob.glob(V + '/seeded/*')) if len(sys.argv) < 2 or sys.argv[1] in d]
with ThreadPoolExecutor(6) as ex:
    for d, prop, err, res in ex.map(one, ds):
        hit = [p for p in res if res[p][0] == 1]
        odd = ['%s:%d' % (p, res[p][0]) for p in res if res[p][0] != 1]
        print('%-8s %-22s %s caught by %s%s' % ('ok' if prop in hit else 'MISSED', os.path.basename(d), prop, ','.join(hit) or '-',
                                              ' no answer ' + ','.join(odd) if odd else ''), err[:200], flush=True)
