"""Loop summaries.

Literal collections and constant bounds are unrolled.  Every other loop is
analysed once, for a generic position of the collection, with the variables it
carries from one iteration to the next havocked; the recurrences found
(counters, flags, sums, folds) are turned into closed terms over the whole
collection, and an exit taken inside the body becomes "some element satisfies
P", at the first such position.
"""
from engine import (I, NULL, UNDEF, TRUE, FALSE, BEGIN, END, CONSTK, Unsupported, NoMerge, State)
import models


def iter_var(eng, e, fr):
    """Declaration id of the hidden __begin variable in a range-for initialiser."""
    stack = [e]
    while stack:
        x = stack.pop()
        if isinstance(x, dict):
            if x.get('k') == 'ref' and x.get('n', '').startswith('__begin'):
                return x['d']
            stack.extend(x.values())
        elif isinstance(x, list):
            stack.extend(x)
    return None


def type_positions(eng, ty, val):
    t = ty.noref if ty is not None else None
    if t is None:
        return None
    if t.k == 'array':
        n = int(t.d.get('n', 0))
    elif t.rec == 'std::array':
        c = [x for x in t.targs if not hasattr(x, 'k')]
        n = int(c[0]) if c else 0
    else:
        return None
    return [('at', I(i)) for i in range(n)] if n <= 64 else None


def ex_forr(eng, n, st, fr):
    if n.get('init'):
        inner = {'k': 'blk', 's': [n['init'], {'k': 'pyhook', 'f': lambda s: forr_body(eng, n, s, fr)}]}
        return eng.ex_blk(inner, st, fr)
    return forr_body(eng, n, st, fr)


def forr_body(eng, n, st, fr):
    outs = []
    h = len(st.raii)
    for s, loc in eng.lvs(n['r'], st, fr):
        # the range initialiser is bound to a reference that outlives the loop
        if loc[0][0] == 't' and loc[0][-1] == fr.depth:
            x = ('x', ('rng', n.get('l'), n['v']['d']), fr.depth)
            s = s.copy()
            s.mem[x] = s.mem.pop(loc[0])
            s.raii = tuple((r[0], x) + r[2:] if r[1] == loc[0] else r for r in s.raii)
            loc = (x, loc[1])
        val = eng.read(s, loc)
        for s1, v1 in eng.split(s, val):
            if s1 is not s:
                s1 = s1.copy()
            outs.extend(forr_over(eng, n, s1, fr, loc, v1))
    return eng.merge_outs(outs)


def range_type(eng, n, fr):
    return eng.etype(n['r'], fr)


def forr_over(eng, n, st, fr, loc, val):
    ids = iter_var(eng, n['v'].get('i'), fr)
    rng = None
    pos = type_positions(eng, range_type(eng, n, fr), val)
    if pos is not None:
        rng = models.Rng(loc, False, pos, val)
    else:
        keys = models.literal_keys(eng, val)
        if keys is not None:
            rng = models.Rng(loc, False, [('k', k) for k in keys], val)
        elif val[0] == 'vec':
            rng = models.Rng(loc, False, [('at', I(i)) for i in range(len(val[1]))], val)
        elif val[0] == 's':
            rng = models.Rng(loc, False, [('at', I(i)) for i in range(len(val[1]))], val)
        elif models.guarded_keys(eng, val) is not None:
            keys, guards = models.guarded_keys(eng, val)
            rng = models.Rng(loc, False, [('k', k) for k in keys], val)
            rng.guards = {('k', k): guards[k] for k in keys}
        else:
            rng = models.Rng(loc, True, None, val)

    def body(s, eloc):
        root = ('v', fr.tu.name, ids, fr.depth)
        s = s.copy()
        p = eloc[1][-1]
        base = (eloc[0], eloc[1][:-1])
        if range_type(eng, n, fr) is not None and range_type(eng, n, fr).noref.k == 'array':
            s.mem[root] = ('aptr', base, p[1])
        else:
            s.mem[root] = ('it', base, ('key', p[1]) if p[0] == 'k' else p[1])
        blk = {'k': 'blk', 's': [{'k': 'decl', 'v': [n['v']]}, n['b']]}
        outs = []
        for k, s2, v in eng.ex_blk(blk, s, fr):
            if root in s2.mem:
                s2 = s2.copy()
                del s2.mem[root]
            outs.append((k, s2, v))
        return outs
    return iterate(eng, st, fr, rng, body)


# ------------------------------------------------------------------ iterate
def iterate(eng, st, fr, rng, body):
    """body(state, element location) -> exits.  Returns exits of the loop."""
    if not rng.whole:
        outs = []
        cur = [(st, None)]
        for p in rng.positions:
            nxt = []
            for s, _ in cur:
                g = rng.guards.get(p, 1)
                if g != 1:
                    skip, s = eng.assume(s, eng.M.NOT(g)), eng.assume(s, g)
                    if skip is not None:
                        nxt.append((skip, None))
                    if s is None:
                        continue
                for k, s2, v in body(s, (rng.loc[0], rng.loc[1] + (p,))):
                    if k in ('n', 'c'):
                        nxt.append((s2, None))
                    elif k == 'b':
                        outs.append(('n', s2, None))
                    else:
                        outs.append((k, s2, v))
            cur = eng.merge(nxt)
            if len(cur) > 600:
                raise Unsupported('too many paths in loop at %s' % (eng.cur,))
            if not cur:
                break
        outs.extend(('n', s, None) for s, _ in cur)
        return eng.merge_outs(outs)
    V = rng.val

    def gbody(s, bv):
        return body(s, (rng.loc[0], rng.loc[1] + (('at', bv),)))
    return generic(eng, st, fr, V, gbody)


def changed_paths(eng, old, new):
    if old == new:
        return []
    if old[0] == 'st' and new[0] == 'st' and old[1] == new[1]:
        fo, fn = dict(old[2]), dict(new[2])
        if fo.keys() == fn.keys():
            out = []
            for f in fo:
                out += [(('f', f),) + p for p in changed_paths(eng, fo[f], fn[f])]
            return out
    if new[0] == 'upd' or old[0] == 'upd':
        bo = old[1] if old[0] == 'upd' else old
        bn = new[1] if new[0] == 'upd' else new
        if bo == bn:
            fo = dict(old[2]) if old[0] == 'upd' else {}
            fn = dict(new[2]) if new[0] == 'upd' else {}
            out = []
            for f in sorted(set(fo) | set(fn)):
                a, b = fo.get(f, eng.sel_f(bo, f)), fn.get(f, eng.sel_f(bo, f))
                out += [(('f', f),) + p for p in changed_paths(eng, a, b)]
            return out
    return [()]


def live_root(r):
    return r[0] in ('m', 'this', 'glob', 'g')


def diff_states(eng, st, outs):
    """Locations whose value may differ after an iteration."""
    res = set()
    for s in outs:
        for r in set(st.mem) | {x for x in s.mem if live_root(x)}:
            a = st.mem.get(r)
            b = s.mem.get(r)
            if a is None:
                a = eng.initial(r)
            if b is None:
                continue
            if a == b:
                continue
            if a[0] == 'ref' or b[0] == 'ref':
                continue
            for p in changed_paths(eng, a, b):
                res.add((r, p))
    # drop paths below another changed path
    out = []
    for r, p in res:
        if not any(r2 == r and p2 != p and p[:len(p2)] == p2 for r2, p2 in res):
            out.append((r, p))
    return sorted(out, key=lambda x: repr(x))


def pin(eng, st, s0, cont):
    """A variable that is a constant before the loop and equal to it whenever the loop goes on keeps it: a status that has to be
    good for the next iteration, a flag that stops the loop."""
    for s in cont:
        for r in st.mem:
            was, now = st.mem[r], s.mem.get(r)
            if was[0] not in ('i', 'b', 'null') or now is None or now == was or now[0] in ('it', 'aptr', 'ref', 'ptr', 'lv', 'add'):
                continue
            try:
                if eng.assume(s, eng.M.NOT(eng.eq(now, was))) is None:
                    s.mem[r] = was
            except Unsupported:
                continue


def known_zero(eng, st, r):
    v = st.mem.get(r)
    if v is None or v[0] in ('i', 's', 'b', 'it', 'aptr', 'ref', 'ptr', 'lv', 'st', 'vec', 'null', 'undef'):
        return False
    try:
        return eng.assume(st, eng.M.NOT(eng.eq(v, I(0)))) is None
    except Unsupported:
        return False


def generic(eng, st, fr, V, gbody, endtest=None, pre=None):
    M = eng.M
    d = fr.loopdepth
    bv = ('bv', d)
    fr.loopdepth += 1
    saved_thrown, eng.thrown = eng.thrown, []
    nnotes = len(eng.notes)
    try:
        carried = []
        for attempt in range(8):
            del eng.notes[nnotes:]
            s0 = st.copy()
            lvs = []
            for i, (r, p) in enumerate(carried):
                cur = eng.peek(st, (r, p))
                base = ('lv', d, i)
                lv = base
                if cur[0] in ('it', 'aptr'):
                    lv = (cur[0], cur[1], base)
                lvs.append((base, lv, cur))
                eng.write(s0, (r, p), lv, quiet=True)
            eng.thrown = []
            outs = gbody(s0, bv)
            outs = outs + [('t', s, v) for s, v in eng.thrown]
            eng.thrown = []
            cont = [s for k, s, v in outs if k in ('n', 'c')]
            pin(eng, st, s0, cont)
            ch = diff_states(eng, s0, cont)
            new = [x for x in ch if x not in carried and
                   not any(r == x[0] and x[1][:len(p)] == p for r, p in carried)]
            ptrs = [r for (r, p), (base, lv, cur) in zip(carried, lvs) if not p and lv == base and cur[0] not in ('i', 'gv') and cont and
                    all(eng.peek(s, (r, p)) in (base, ('aptr', (('m', base), ()), I(1))) for s in cont)
                    and any(eng.peek(s, (r, p)) != base for s in cont)]
            if ptrs:
                # a pointer that walks over an array
                st = st.copy()
                for r in ptrs:
                    v = st.mem[r]
                    st.mem[r] = ('aptr', v[1], I(0)) if v[0] == 'ptr' else ('aptr', (('m', v), ()), I(0))
                carried = []
                continue
            if not new:
                break
            known = [r for r, p in new if not p and known_zero(eng, st, r)]
            if known:
                st = st.copy()
                for r in known:
                    st.mem[r] = I(0)
                continue
            keep = [c for c in carried if not any(r == c[0] and c[1][:len(p)] == p for r, p in new)]
            carried = keep + new
        else:
            raise Unsupported('loop at %s does not stabilise' % (eng.cur,))
    finally:
        fr.loopdepth -= 1
        eng.thrown = saved_thrown
    for s in cont:
        if s.locks != st.locks or s.raii != st.raii:
            raise Unsupported('loop iteration changes the locks held at %s' % (eng.cur,))
    # drop events already in st
    nev = len(st.ev)
    rel = lambda c: M.constrain(c, st.cond)
    contc = M.ORs(*[rel(s.cond) for s in cont])
    exits = [(k, s, v) for k, s, v in outs if k not in ('n', 'c')]
    X = M.ORs(*[rel(s.cond) for k, s, v in exits])
    steps = []
    for (r, p), (base, lv, init) in zip(carried, lvs):
        pairs = []
        for s in cont:
            v = eng.peek(s, (r, p))
            if v[0] in ('it', 'aptr') and lv[0] == v[0] and v[1] == lv[1]:
                v = v[2]
            pairs.append((M.constrain(rel(s.cond), contc), v))
        steps.append(eng.mkgv(pairs, 200) if pairs else base)
    bases = [b for b, _, _ in lvs]
    evs = []
    for k, s, v in outs:
        if len(s.ev) > nev:
            evs.append((k if isinstance(k, str) else 'g', rel(s.cond), s.ev[nev:]))
    hasev = any(e[0] in ('n', 'c') for e in evs)
    carr = tuple((c, b, i, t) for c, (b, l, i), t in zip(carried, lvs, steps))
    loopev = ('loop', V, bv, tuple(evs), carr, rel(contc) if contc != 1 else 1, eng.cur)
    res = []
    opaque = any(eng.free_node(X, b) for b in bases)
    # an exit decided by a carried variable: keep it as an unknown choice
    if X == 0:
        Xq, some = 0, 0
    elif opaque:
        eng.notes.append(('opaque loop exit', eng.cur))
        key = ('lx', eng.cur, d)
        Xq, some = None, M.lit(key, (1,))
    else:
        Xq = eng.bind_quant(X, bv)
        some = eng.any_q(V, Xq)
    done = eng.assume(st, M.NOT(some))
    if done is not None and (contc != 0 or V[0] != 'vec'):
        s = done.copy()
        for (c, b, init, step), (_, lv, _) in zip(carr, lvs):
            val = solve(eng, V, init, step, bv, b, carr)
            eng.write(s, c, rewrap(lv, init, val), quiet=True)
        if hasev:
            s.ev = s.ev + (loopev,)
        res.append(('n', s, None))
    if exits:
        s1 = eng.assume(st, some)
        if s1 is not None:
            pos = ('lpos', eng.cur, d) if opaque else eng.first(V, Xq)
            PV = ('pfx', V, pos)
            inst = {bv: pos}
            if opaque:
                for i, b in enumerate(bases):
                    inst[b] = ('lvx', eng.cur, d, I(i))
            else:
                for (c, b, init, step), (_, lv, _) in zip(carr, lvs):
                    x = solve(eng, PV, init, step, bv, b, carr)
                    if x[0] in ('it', 'aptr'):
                        x = I(0) if x[2] == BEGIN else x[2]
                    inst[b] = x
            f = lambda t: inst.get(t)
            memo = {}
            Xi = eng.substnode(X, f, memo)
            for k, s, v in exits:
                c = eng.substnode(rel(s.cond), f, memo)
                if opaque:
                    c = M.AND(c, M.lit(('lxw', eng.cur, d, len(res)), (1,))) if len(exits) > 1 else c
                c = M.constrain(c, Xi) if Xi != 0 else c
                c = M.AND(s1.cond, c)
                if c == 0:
                    continue
                s2 = s.copy()
                s2.cond = c
                for r in list(s2.mem):
                    s2.mem[r] = sub_val(eng, s2.mem[r], f, memo)
                nev2 = tuple(sub_event(eng, e, f, memo) for e in s.ev[nev:])
                s2.ev = s1.ev + ((loopev,) if hasev else ()) + nev2
                s2.locks = tuple(eng.subst(x, f, memo) for x in s2.locks)
                v2 = sub_val(eng, v, f, memo) if v is not None else None
                res.append(('n' if k == 'b' else k, s2, v2))
    return eng.merge_outs(res)


def rewrap(lv, init, val):
    if lv[0] in ('it', 'aptr') and val[0] not in ('it', 'aptr'):
        return (lv[0], lv[1], val)
    return val


def sub_event(eng, e, f, memo):
    if e[0] != 'loop':
        return eng.subst(e, f, memo)
    _, V, bv, paths, carr, cont, cur = e
    return ('loop', eng.subst(V, f, memo), bv,
            tuple((k, eng.substnode(g, f, memo), tuple(sub_event(eng, x, f, memo) for x in evs)) for k, g, evs in paths),
            tuple((eng.subst(c, f, memo), b, eng.subst(i, f, memo), eng.subst(t, f, memo)) for c, b, i, t in carr),
            eng.substnode(cont, f, memo), cur)


def sub_val(eng, v, f, memo):
    return eng.subst(v, f, memo)


def cof(eng, n, atom, key):
    """Cofactor of a node: atom has key."""
    return eng.M.rebuild(n, lambda a, k: (1 if k == key else 0) if a == atom else None)


def cof_not(eng, n, atom):
    return eng.M.rebuild(n, lambda a, k: 0 if a == atom else None)


def solve(eng, V, init, step, bv, lv, carr):
    """Closed form of a recurrence over all elements of V."""
    M = eng.M
    if step == lv:
        return init
    if init[0] in ('it', 'aptr'):
        init = I(0) if init[2] == BEGIN else init[2]
    others = [b for _, b, _, _ in carr if b != lv]
    alts = eng.alts(step)
    dep_other = any(eng.free(step, b) for b in others)
    if not dep_other:
        # boolean flag
        if eng.boolish(init) and all(v in (TRUE, FALSE, lv) for _, v in alts):
            Sn = eng.node(step)
            atom = ('val', lv)
            St = cof_not(eng, Sn, atom)      # lv != 0
            Sf = cof(eng, Sn, atom, I(0))    # lv == 0
            if not eng.free_node(St, lv) and not eng.free_node(Sf, lv):
                ni = eng.node(init)
                if St == 1:
                    return eng.mkbool(M.OR(ni, eng.any_q(V, eng.bind_quant(Sf, bv))))
                if Sf == 0:
                    return eng.mkbool(M.AND(ni, M.NOT(eng.any_q(V, eng.bind_quant(M.NOT(St), bv)))))
                # other flag shapes: last assignment wins only if it is monotone
        gfree = all(not eng.free_node(g, lv) for g, _ in alts)
        if gfree:
            rest = [(g, v) for g, v in alts if v != lv]
            vals = {v for _, v in rest}
            # constant assignment under a condition
            if len(vals) == 1:
                c = next(iter(vals))
                if not eng.free(c, lv) and not eng.free(c, bv):
                    P = M.ORs(*[g for g, _ in rest])
                    a = eng.any_q(V, eng.bind_quant(P, bv))
                    return eng.mkgv([(a, c), (M.NOT(a), init)])
            # counter
            if all(v[0] == 'add' and v[1] == lv and v[2] == I(1) for v in vals):
                P = M.ORs(*[g for g, _ in rest])
                return eng.arith('+', init, eng.count_q(V, eng.bind_quant(P, bv)))
            # sum
            terms = []
            for g, v in rest:
                if v[0] == 'op' and v[1] == '+' and lv in (v[2], v[3]):
                    o = v[3] if v[2] == lv else v[2]
                elif v[0] == 'add' and v[1] == lv:
                    o = v[2]
                else:
                    terms = None
                    break
                if eng.free(o, lv):
                    terms = None
                    break
                terms.append((g, o))
            if terms:
                g0 = M.NOT(M.ORs(*[g for g, _ in terms]))
                if g0 != 0:
                    terms.append((g0, I(0)))
                f = eng.mkgv(terms)
                if not eng.free(f, bv):
                    return eng.arith('+', init, eng.arith('*', eng.size_of(V), f))
                return eng.arith('+', init, ('sum', V, eng.bind_term(f, bv)))
        n = eng.max_bq(step) + 1
        body = eng.subst(step, lambda t: ('bq', n) if t == bv else (('acc', n) if t == lv else None))
        return ('fold', V, init, body)
    # several variables depend on each other
    idx = [b for _, b, _, _ in carr]
    n = max(eng.max_bq(t) for _, _, _, t in carr) + 1
    m = {b: ('accj', n, I(i)) for i, b in enumerate(idx)}
    m[bv] = ('bq', n)
    f = lambda t: m.get(t)
    body = tuple((i0 if i0[0] not in ('it', 'aptr') else I(0), eng.subst(t, f)) for _, b, i0, t in carr)
    return ('foldj', V, body, I(idx.index(lv)))


# ------------------------------------------------------------ for and while
def ex_for(eng, n, st, fr):
    if n.get('init'):
        inner = {'k': 'blk', 's': [n['init'], {'k': 'pyhook', 'f': lambda s: for_body(eng, n, s, fr)}]}
        return eng.ex_blk(inner, st, fr)
    return for_body(eng, n, st, fr)


def for_body(eng, n, st, fr):
    r = try_unroll(eng, n, st, fr)
    if r is not None:
        return r
    marks = [len(x) for x in (eng.thrown, eng.cmp_log, eng.asserts, eng.nullderef, eng.notes)]
    try:
        return generic_for(eng, n, st, fr)
    except Unsupported:
        for x, m in zip((eng.thrown, eng.cmp_log, eng.asserts, eng.nullderef, eng.notes), marks):
            del x[m:]
        try:
            r = try_unroll(eng, n, st, fr, True)   # a constant bound may end it all the same
        except Unsupported:
            r = None
        if r is None:
            raise
        return r


def test(eng, n, s, fr):
    """[(state, node)] for the loop condition."""
    if n.get('cv') or not n.get('c'):
        if n.get('cv'):
            raise Unsupported('condition variable in loop at %s' % (eng.cur,))
        return [(s, 1)]
    h = len(s.raii)
    out = []
    for s1, v in eng.full(s, fr, eng.ev(n['c'], s, fr), h):
        out.append((eng.drop_temps(s1, fr), eng.node(v)))
    return out


def step_inc(eng, n, s, fr):
    if not n.get('inc'):
        return [s]
    h = len(s.raii)
    return [x for x, _ in eng.merge([(eng.drop_temps(s1, fr), None) for s1, _ in
                                     eng.full(s, fr, eng.ev_any(n['inc'], s, fr), h)])]


def try_unroll(eng, n, st, fr, force=False):
    """Unroll while the number of iterations is decided; None if it is not."""
    outs = []
    cur = [st]
    saved = (list(eng.thrown), len(eng.cmp_log), len(eng.asserts), len(eng.nullderef), dict(eng.opaque_calls))
    marks = len(eng.thrown)
    budget = len(eng.M.nodes) + 60000
    for it in range(eng.UNROLL + 1 if not force else 40):
        nxt = []
        if force and len(eng.M.nodes) > budget:
            return None
        for s in cur:
            for s1, t in test(eng, n, s, fr):
                rel = eng.M.constrain(t, s1.cond)
                if rel not in (0, 1) and not force and (symbolic_bound(eng, rel) if it == 0 else (symbolic_size(eng, rel) or it > 12)):
                    del eng.thrown[marks:]
                    del eng.cmp_log[saved[1]:]
                    del eng.asserts[saved[2]:]
                    del eng.nullderef[saved[3]:]
                    return None
                a, b = eng.assume(s1, t), eng.assume(s1, eng.M.NOT(t))
                if b is not None:
                    outs.append(('n', b, None))
                if a is None:
                    continue
                for k, s2, v in eng.exec(n['b'], a, fr):
                    if k in ('n', 'c'):
                        nxt.append((s2, None))
                    elif k == 'b':
                        outs.append(('n', s2, None))
                    else:
                        outs.append((k, s2, v))
        cur = []
        for s, _ in eng.merge(nxt):
            cur.extend(step_inc(eng, n, s, fr))
        if not cur:
            return eng.merge_outs(outs)
        if len(cur) > 600:
            raise Unsupported('too many paths in loop at %s' % (eng.cur,))
    del eng.thrown[marks:]
    return None


def symbolic_size(eng, node):
    for a in eng.M.support(node):
        if a[0] in ('cmp', 'any', 'cells') or (a[0] == 'val' and a[1][0] in ('size', 'count')):
            return True
    return False


def symbolic_bound(eng, node):
    """Does the condition compare with a quantity that is not a constant?"""
    for a in eng.M.support(node):
        if a[0] in ('cmp', 'any', 'cells'):
            return True
        if a[0] == 'val' and a[1][0] in ('fld', 'sym', 'size', 'count', 'deref'):
            return True
        if a[0] == 'eq':
            return True
    return False


def generic_for(eng, n, st, fr):
    M = eng.M
    d = fr.loopdepth
    # 1. find the induction variable and its bound with everything havocked
    for attempt in range(8):
        found = find_induction(eng, n, st, fr)
        if found is None:
            raise Unsupported('loop at %s: no induction variable' % (eng.cur,))
        if found[0] != 'aptr':
            break
        st = st.copy()
        v = st.mem[found[1]]
        st.mem[found[1]] = ('aptr', v[1], I(0)) if v[0] == 'ptr' else ('aptr', (('m', v), ()), I(0))
    root, N, V, init, delta = found
    down = delta is not None
    if down:
        return reverse_for(eng, n, st, fr, root, N, V, delta)

    marks = [len(x) for x in (eng.thrown, eng.cmp_log, eng.asserts, eng.nullderef, eng.notes)]
    try:
        return ascending(eng, n, st, fr, root, N, V, False)
    except LooksAhead:
        for x, m in zip((eng.thrown, eng.cmp_log, eng.asserts, eng.nullderef, eng.notes), marks):
            del x[m:]
        return ascending(eng, n, st, fr, root, N, V, True)


class LooksAhead(Exception):
    """The loop test looks at the element at the position itself."""


def ascending(eng, n, st, fr, root, N, V, early):
    """early: an exit decided by the test belongs to the iteration that it starts,
    otherwise to the one that it ends."""
    M = eng.M

    def gbody(s, bv):
        outs = []
        s = s.copy()
        cur = s.mem[root]
        if cur[0] in ('it', 'aptr'):
            s.mem[root] = (cur[0], cur[1], bv)
        else:
            s.mem[root] = bv
        ahead = eng.arith('+', bv, I(1))
        for s1, t in test(eng, n, s, fr):
            if early:
                go = M.exists(t, lambda a: range_atom(eng, a, bv, N))
                b = eng.assume(s1, M.NOT(go))
                if b is not None:
                    outs.append(('b', b, None))
            # inside the loop the position is below the bound
            inr = in_range(eng, s1.mem[root], N, s1)
            s1 = eng.assume(s1, M.AND(inr, t))
            if s1 is None:
                continue
            s1.cond = strip_range(eng, s1.cond, bv, N, s.cond)
            for k, s2, v in eng.exec(n['b'], s1, fr):
                if k not in ('n', 'c'):
                    outs.append((k, s2, v))
                    continue
                for s3 in step_inc(eng, n, s2, fr):
                    if early:
                        s3 = s3.copy()
                        s3.mem[root] = cur if root in st.mem else UNDEF
                        outs.append(('n', s3, None))
                        continue
                    for s4, t2 in test(eng, n, s3, fr):
                        go = M.exists(t2, lambda a: range_atom(eng, a, bv, N))
                        if go > 1 and any(has(a, ahead) for a in M.support(go)):
                            raise LooksAhead()
                        a, b = eng.assume(s4, go), eng.assume(s4, M.NOT(go))
                        if b is not None:
                            outs.append(('b', b, None))
                        if a is not None:
                            a = a.copy()
                            a.mem[root] = cur if root in st.mem else UNDEF
                            outs.append(('n', a, None))
        return eng.merge_outs(outs)

    # a test that fails for another reason than the bound before the first iteration
    outs = []
    for s, t in ([(st, 1)] if early else test(eng, n, st, fr)):
        i0 = s.mem[root]
        go = M.exists(t, lambda a: first_atom(eng, a, N, V))
        no = eng.assume(s, M.NOT(go))
        if no is not None:
            outs.append(('n', no, None))
        s = eng.assume(s, go)
        if s is None:
            continue
        for k, s2, v in generic(eng, s, fr, V, gbody):
            cur = s2.mem.get(root)
            if k == 'n' and cur is not None and (cur == i0 or cur[0] == 'gv' and any(x == i0 for _, x in cur[1])):
                # ran to the end: the position is the bound
                s2 = s2.copy()
                if V[0] == 'drop':
                    end = UNDEF
                elif i0[0] == 'it':
                    end = ('it', i0[1], END)
                elif i0[0] == 'aptr':
                    end = ('aptr', i0[1], N)
                else:
                    end = N
                s2.mem[root] = eng.gvmap(cur, lambda x: end if x == i0 else x)
            outs.append((k, s2, v))
    return eng.merge_outs(outs)


def reverse_for(eng, n, st, fr, root, N, V, delta):
    """A loop that counts down to zero: the positions of V from the last to the first."""
    M = eng.M
    zero = I(0)

    def tested(s, bv):
        s = s.copy()
        s.mem[root] = eng.arith('+', bv, I(delta))
        out = []
        for s1, t in test(eng, n, s, fr):
            for r, v in s1.mem.items():
                if r != root and s.mem.get(r) != v:
                    raise Unsupported('the loop test at %s has effects' % (eng.cur,))
            if len(s1.ev) != len(s.ev):
                raise Unsupported('the loop test at %s has effects' % (eng.cur,))
            out.append((s1, M.exists(t, lambda a: down_atom(a, bv))))
        return out

    def gbody(s, bv):
        outs = []
        for s1, t in tested(s, bv):
            b = eng.assume(s1, M.NOT(t))
            if b is not None:
                outs.append(('b', b, None))
            s1 = eng.assume(s1, t)
            if s1 is None:
                continue
            for k, s2, v in eng.exec(n['b'], s1, fr):
                if k not in ('n', 'c'):
                    outs.append((k, s2, v))
                    continue
                for s3 in step_inc(eng, n, s2, fr):
                    s3 = s3.copy()
                    s3.mem[root] = st.mem[root]
                    outs.append(('n', s3, None))
        return eng.merge_outs(outs)
    outs = []
    for k, s2, v in generic(eng, st, fr, ('rev', V), gbody):
        if root in s2.mem:
            s2 = s2.copy()
            s2.mem[root] = UNDEF if k == 'n' else s2.mem[root]
        outs.append((k, s2, v))
    return eng.merge_outs(outs)


def down_atom(a, bv):
    if a[0] == 'val':
        return has(a[1], bv) and not any(isinstance(x, tuple) and x and x[0] == 'elem' for x in a[1])
    return a[0] == 'cmp' and (has(a[1], bv) or has(a[2], bv)) and not (a[1][0] in ('fld', 'elem') or a[2][0] in ('fld', 'elem'))


def first_atom(eng, a, N, V):
    return eng.free_node(eng.M.lit(a, (eng.M.dom[eng.M.level[a]] or (1,))[:1]), N) or \
        (a[0] == 'any' and a[2] == 1 and a[1] == V)


def range_atom(eng, a, bv, N):
    if a[0] == 'cmp':
        return (has(a[1], bv) and has(a[2], N)) or (has(a[1], N) and has(a[2], bv))
    if a[0] == 'cells':
        return False
    return False


def has(t, x):
    stack = [t]
    while stack:
        y = stack.pop()
        if y == x:
            return True
        if isinstance(y, tuple):
            stack.extend(z for z in y if isinstance(z, tuple))
    return False


def strip_range(eng, c, bv, N, before):
    """Forget the facts about the position and its bound."""
    return eng.M.exists(c, lambda a: range_atom(eng, a, bv, N))


def in_range(eng, i, N, s):
    if i[0] in ('it', 'aptr'):
        i = i[2]
    return eng.intcmp('<', i, N, True)


def find_induction(eng, n, st, fr):
    """(root, bound term, collection, initial value) of a canonical counting loop."""
    M = eng.M
    d = fr.loopdepth
    fr.loopdepth += 1
    saved = (eng.thrown, len(eng.asserts), len(eng.nullderef), dict(eng.opaque_calls), len(eng.notes))
    eng.thrown = []
    try:
        carried = []
        for attempt in range(8):
            s0 = st.copy()
            for i, (r, p) in enumerate(carried):
                cur = eng.peek(st, (r, p))
                base = ('lv', d, i)
                lv = (cur[0], cur[1], base) if cur[0] in ('it', 'aptr') else base
                eng.write(s0, (r, p), lv, quiet=True)
            cont = []
            tests = test(eng, n, s0, fr)
            for s1, t in tests:
                a = eng.assume(s1, t)
                if a is None:
                    continue
                for k, s2, v in eng.exec(n['b'], a, fr):
                    if k in ('n', 'c'):
                        cont.extend(step_inc(eng, n, s2, fr))
            ch = diff_states(eng, s0, cont)
            new = [x for x in ch if x not in carried and
                   not any(r == x[0] and x[1][:len(p)] == p for r, p in carried)]
            if not new:
                break
            keep = [c for c in carried if not any(r == c[0] and c[1][:len(p)] == p for r, p in new)]
            carried = keep + new
        else:
            return None
        for i, (r, p) in enumerate(carried):
            if p:
                continue
            init = eng.peek(st, (r, p))
            if len(init) < 2:
                continue
            i0 = init[2] if init[0] in ('it', 'aptr') else init
            base = ('lv', d, i)
            if init[0] not in ('it', 'aptr', 'i') and cont and \
                    all(eng.peek(s, (r, p)) in (('aptr', (('m', base), ()), I(1)), ('aptr', init[1], I(1))) for s in cont):
                return 'aptr', r, None, None, None
            if cont and all(down_step(eng.peek(s, (r, p)), base) for s in cont) and init[0] not in ('it', 'aptr', 'gv'):
                for delta in (1, 0):
                    stop, go = I(delta - 1), I(delta)
                    at = lambda c: M.ORs(*[eng.substnode(t, lambda x: c if x == base else None) for _, t in tests])
                    if at(stop) == 0 and at(go) != 0:
                        N = init if delta else eng.arith('+', init, I(1))
                        return r, N, (N[1] if N[0] == 'size' else ('range', N)), init, delta
                continue
            if i0 != BEGIN and (i0[0] != 'i' or not 0 <= i0[1] < 64):
                continue
            ok = bool(cont)
            for s in cont:
                v = eng.peek(s, (r, p))
                v = v[2] if v[0] in ('it', 'aptr') else v
                if v != ('add', base, I(1)):
                    ok = False
            if not ok:
                continue
            for s1, t in tests:
                for a in M.support(t):
                    if a[0] != 'cmp' or a[3] != 0:
                        continue
                    if a[1] == base:
                        N = a[2]
                    elif a[2] == base:
                        N = a[1]
                    else:
                        continue
                    if any(eng.free(N, ('lv', d, j)) for j in range(len(carried))):
                        continue
                    V = N[1] if N[0] == 'size' else ('range', N)
                    if i0 not in (I(0), BEGIN):
                        V = ('drop', V, i0)
                    # the condition must fail at the bound
                    if cof(eng, t, a, '=') != 0:
                        continue
                    return r, N, V, init, None
        return None
    finally:
        fr.loopdepth -= 1
        eng.thrown = saved[0]
        del eng.asserts[saved[1]:]
        del eng.nullderef[saved[2]:]
        eng.opaque_calls = saved[3]
        del eng.notes[saved[4]:]


def down_step(v, base):
    return v == ('add', base, I(-1)) or v == ('op', '-', base, I(1))


def ex_do(eng, n, st, fr):
    outs = []
    cur = [st]
    for it in range(eng.UNROLL + 1):
        nxt = []
        for s in cur:
            for k, s2, v in eng.exec(n['b'], s, fr):
                if k in ('n', 'c'):
                    nxt.append((s2, None))
                elif k == 'b':
                    outs.append(('n', s2, None))
                else:
                    outs.append((k, s2, v))
        cur = []
        for s, _ in eng.merge(nxt):
            for s1, t in test(eng, n, s, fr):
                rel = eng.M.constrain(t, s1.cond)
                if rel not in (0, 1) and (symbolic_bound(eng, rel) if it == 0 else (symbolic_size(eng, rel) or it > 12)):
                    raise Unsupported('do loop at %s' % (eng.cur,))
                a, b = eng.assume(s1, t), eng.assume(s1, eng.M.NOT(t))
                if b is not None:
                    outs.append(('n', b, None))
                if a is not None:
                    cur.append(a)
        if not cur:
            return eng.merge_outs(outs)
    raise Unsupported('do loop at %s' % (eng.cur,))
