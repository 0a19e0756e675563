#!/usr/bin/env python3
"""check.py ID [--thorough]: decide one property on /repo's current source, without running it."""
import json
import os
import shutil
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import threading
threading.stack_size(512 * 1024 * 1024)

import core
import export
from prog import Program
import rules


def main(argv):
    pid = argv[0]
    thorough = '--thorough' in argv or os.environ.get('VERIF_TIER') == 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    t0 = time.time()
    rule, tus = rules.RULES[pid]
    ctx = None
    tmp = None
    try:
        try:
            files, tmp = export.export(None if thorough else tus)
            prog = Program(files)
        except export.ExportError as ex:
            print('INCONCLUSIVE property=%s %s' % (pid, ex))
            return 2
        ctx = core.Ctx(pid, prog, thorough, seed)
        for n, tu in prog.tus.items():
            if tu.errors:
                ctx.giveup('%s.cpp: %d parse errors against the declaration stubs' % (n, tu.errors))
        missing = [t for t in tus if t not in prog.tus]
        if missing:
            ctx.giveup('translation units missing: %s' % ', '.join(missing))
        with ctx.guard('rule %s' % pid):
            rule(ctx)
    finally:
        if tmp:
            shutil.rmtree(tmp, ignore_errors=True)
    return report(ctx, thorough, seed, t0)


def report(ctx, thorough, seed, t0):
    pid = ctx.pid
    known = {k: t for p, k, t in core.load_known() if p == pid}
    bad, kn, unk = {}, {}, []
    for o in ctx.obs:
        if o.ok:
            continue
        if o.unknown:
            unk.append(o)
        elif o.key in known:
            kn[o.key] = o
        else:
            bad.setdefault((o.rule, o.where, o.detail), o)
    for o in unk:
        ctx.giveup('%s at %s depends on something without a model: %s' % (o.rule, o.where, o.detail[:400]))
    if not ctx.obs:
        ctx.giveup('no obligation was generated')
    out = os.environ.get('SA_EVIDENCE', 'evidence')
    os.makedirs(os.path.join(core.VERIF, out), exist_ok=True)
    replay = '%s/%s.violations.json' % (out, pid)
    seen = {}
    for o in ctx.obs:
        seen.setdefault(o.rule, [0, 0])
        seen[o.rule][0] += 1
        seen[o.rule][1] += 1 if o.ok else 0
    cov = {
        'explanation': ' '.join(ctx.rules) or 'see DESIGN.md',
        'obligations': len(ctx.obs),
        'discharged': sum(1 for o in ctx.obs if o.ok),
        'obligations_by_rule': {r: {'generated': a, 'discharged': b} for r, (a, b) in seen.items()},
        'translation_units': sorted(ctx.prog.tus),
        'entry_points': ctx.entries[:60],
        'functions_analysed': sorted(set(ctx.functions.values())),
        'function_count': len(ctx.functions),
        'abstract_exits': ctx.exits,
        'abstract_steps': ctx.steps,
        'sites': ctx.sites[:60],
        'site_count': len(ctx.sites),
        'opaque_calls': ctx.opaque,
        'samples': [{'rule': o.rule, 'where': o.where, 'ok': o.ok, 'detail': o.detail[:300]} for o in ctx.obs[:12]],
    }
    if ctx.inconclusive:
        cov['inconclusive'] = ctx.inconclusive[:20]
    ev = {
        'property': pid, 'tier': 'thorough' if thorough else 'quick', 'seed': seed, 'level': 'other', 'coverage': cov,
        'assumptions': ctx.assumptions, 'wall_s': round(time.time() - t0, 3), 'violations': len(bad),
    }
    with open(os.path.join(core.VERIF, out, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    rp = os.path.join(core.VERIF, replay)
    if os.path.exists(rp):
        os.unlink(rp)
    for k, o in kn.items():
        print('KNOWN-FINDING: property=%s %s: %s' % (pid, o.where, known[k]))
    if bad:
        with open(rp, 'w') as f:
            json.dump([{'rule': o.rule, 'where': o.where, 'detail': o.detail} for o in bad.values()], f, indent=1)
        for o in list(bad.values())[:20]:
            print('%s: %s: %s' % (o.where, o.rule, o.detail[:600]))
        print('VIOLATION property=%s replay=%s' % (pid, replay))
        return 1
    if ctx.inconclusive:
        for w in ctx.inconclusive[:10]:
            print('INCONCLUSIVE property=%s %s' % (pid, w))
        return 2
    print('OK property=%s obligations=%d functions=%d exits=%d wall=%.2fs' % (
        pid, len(ctx.obs), len(ctx.functions), ctx.exits, time.time() - t0))
    return 0


if __name__ == '__main__':
    rc = []
    def go():
        try:
            rc.append(main(sys.argv[1:]))
        except BaseException:
            import traceback
            traceback.print_exc()
            rc.append(3)
    t = threading.Thread(target=go)
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(rc[0] if rc else 3)
