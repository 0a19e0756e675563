#!/usr/bin/env python3
"""Self test: planted bugs and behaviour-preserving edits, each applied to a scratch copy and analysed.
Usage: run.py [-b|-r] [-k SUBSTR] [-p C01,C02]   (development aid; no check uses it)"""
import glob
import importlib.util
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
only = 'b' if '-b' in args else 'r' if '-r' in args else ''
sub = args[args.index('-k') + 1] if '-k' in args else ''
props = args[args.index('-p') + 1].split(',') if '-p' in args else None
man = [c['property'] for c in json.load(open(V + '/MANIFEST.json'))['checks']]
sys.path.insert(0, V + '/sa')
import rules
cases = []
for f in sorted(glob.glob(V + '/selftest/cases_*.py')):
    sp = importlib.util.spec_from_file_location('c', f)
    m = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(m)
    for c in m.BUGS:
        cases.append(('b',) + tuple(c))
    for c in m.REFACTORS:
        cases.append(('r',) + tuple(c) + (set(),))
cases = [c for c in cases if sub in c[1] and (not only or c[0] == only)]
FLAGS = ['-std=c++17', '-fsyntax-only', '-w', '-I', V + '/stubs/include']


def one(c):
    kind, cid, file, reps, expect = c
    tmp = tempfile.mkdtemp(prefix='sa.', dir='/tmp')
    try:
        shutil.copytree('/repo/rmw_dds_common', tmp + '/rmw_dds_common', ignore=shutil.ignore_patterns('test', 'docs'))
        for r in reps:
            fl, old, new = r if len(r) == 3 else (file,) + tuple(r)
            p = tmp + '/rmw_dds_common/' + fl
            s = open(p).read()
            if old is None:
                s = new(s)
            else:
                if old not in s:
                    return c, 'PATCH FAILS: %r' % old[:60], {}
                s = s.replace(old, new, 1)
            open(p, 'w').write(s)
        gen = tmp + '/gen'
        subprocess.run([sys.executable, V + '/tool/genmsg.py', tmp + '/rmw_dds_common/msg', gen], check=True)
        base = os.path.splitext(os.path.basename(file))[0]
        srcs = glob.glob(tmp + '/rmw_dds_common/src/*.cpp')
        for s in srcs:
            r = subprocess.run(['clang++'] + FLAGS + ['-I', gen, '-I', tmp + '/rmw_dds_common/include', s], capture_output=True, text=True)
            if r.returncode:
                return c, 'DOES NOT COMPILE ' + r.stderr[:400], {}
        res = {}
        ps = props or [p for p in rules.RULES if base in rules.RULES[p][1]]
        for p in ps:
            try:
                r = subprocess.run([sys.executable, V + '/sa/check.py', p], capture_output=True, text=True, cwd=V, timeout=100,
                                   env=dict(os.environ, SA_REPO=tmp, SA_EVIDENCE=tmp + '/ev'))
                res[p] = (r.returncode, r.stdout + r.stderr[-300:])
            except subprocess.TimeoutExpired:
                res[p] = (99, 'TIMEOUT')
        return c, '', res
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


bad = 0
with ThreadPoolExecutor(8) as ex:
    for c, err, res in ex.map(one, cases):
        kind, cid, file, reps, expect = c
        alarms = {p for p, (rc, _) in res.items() if rc == 1}
        unk = {p for p, (rc, _) in res.items() if rc not in (0, 1)}
        ok = not err and (bool(expect & alarms) if kind == 'b' else not alarms and not unk)
        if kind == 'b' and expect and not expect <= alarms and props is None:
            ok = ok and 'partly'
        if ok is not True:
            bad += 1
        print('%-6s %s %s alarms=%s%s%s %s' % ('ok' if ok is True else ok or 'BAD', 'bug ' if kind == 'b' else 'edit', cid, ','.join(sorted(alarms)),
              ' expected=' + ','.join(sorted(expect)) if kind == 'b' and ok is not True else '', ' NOANSWER=' + ','.join(sorted(unk)) if unk else '', err), flush=True)
        if ok is not True and '-v' in args:
            for p, (rc, o) in res.items():
                if rc != 0 or p in expect:
                    print('      ', p, rc, o[:700].replace('\n', '\n        '))
print('%d cases, %d not as expected' % (len(cases), bad))
