"""Summaries over a sequence as register automata.

A summary (a term with closed forms such as folds, counts and quantifiers over
the elements of a sequence) is turned into a transition system: one register
per closed form, one step per element.  The reachable register states are
explored over a finite set of representative elements, so the result holds for
sequences of every length; values are compared and copied only, so that one
representative per order type is enough.
"""
from engine import Unsupported, I, NULL


class Undefined(Unsupported):
    pass


def freeze(v):
    return tuple(sorted((k, freeze(x)) for k, x in v.items())) if isinstance(v, dict) else v


class Eval:
    """Value of a term or node under a binding of its leaves."""

    def __init__(self, eng, leaf):
        self.eng, self.leaf = eng, leaf

    def term(self, t):
        v = self.leaf(t)
        if v is not None:
            return v
        k = t[0]
        if k == 'i':
            return t[1]
        if k == 'null':
            return 0
        if k == 's':
            return t[1]
        if k == 'gv':
            for g, x in t[1]:
                if self.node(g):
                    return self.term(x)
            raise Undefined('no alternative')
        if k == 'fld':
            b = self.term(t[1])
            if isinstance(b, dict) and t[2] in b:
                return b[t[2]]
            raise Undefined('field %s' % t[2])
        if k == 'st':
            return {f: self.term(x) for f, x in t[2] if x != ('undef',)}
        if k == 'upd':
            b = dict(self.term(t[1]))
            for f, x in t[2]:
                b[f] = self.term(x)
            return b
        if k == 'add':
            return self.term(t[1]) + self.term(t[2])
        if k == 'op' and t[1] in ('+', '-', '*'):
            a, b = self.term(t[2]), self.term(t[3])
            return a + b if t[1] == '+' else a - b if t[1] == '-' else a * b
        if k == 'trunc':
            return self.term(t[2]) & ((1 << t[1][1]) - 1)
        raise Undefined('%s' % k)

    def node(self, n):
        while n > 1:
            lv, ent, d = self.eng.M.nodes[n]
            key = self.atom(self.eng.M.vars[lv], [k for k, _ in ent])
            n = d
            for k, c in ent:
                if k == key:
                    n = c
                    break
        return n == 1

    def atom(self, a, keys):
        v = self.leaf(a)
        if v is not None:
            return 1 if v else 0
        if a[0] == 'val':
            v = self.term(a[1])
            for k in keys:
                if k[0] in ('i', 'null', 's') and (k[1] if k[0] != 'null' else 0) == v:
                    return k
            return None
        if a[0] == 'eq':
            return 1 if freeze(self.term(a[1])) == freeze(self.term(a[2])) else 0
        if a[0] == 'cmp':
            x, y = self.term(a[1]), self.term(a[2]) + a[3]
            return '<' if x < y else '>' if x > y else '='
        raise Undefined('condition %s' % a[0])


class SeqEval(Eval):
    """Closed forms over one explicit sequence."""

    def __init__(self, eng, seq, isseq, arr, size, leaf):
        super().__init__(eng, self.lookup)
        self.seq, self.isseq, self.arr, self.size, self.outer = seq, isseq, arr, size, leaf
        self.bound = {}

    def positions(self, V):
        if self.isseq(V):
            return list(range(len(self.seq)))
        if V[0] == 'rev':
            return self.positions(V[1])[::-1]
        if V[0] == 'drop':
            return self.positions(V[1])[self.term(V[2]):]
        if V[0] == 'range':
            return list(range(max(0, self.term(V[1]))))
        if V[0] == 'pfx':
            ps = self.positions(V[1])
            p = self.term(V[2])
            return ps[:ps.index(p)] if p in ps else ps
        raise Undefined('sequence %s' % V[0])

    def under(self, binds, f):
        old = dict(self.bound)
        self.bound.update(binds)
        try:
            return f()
        finally:
            self.bound = old

    def lookup(self, t):
        if t in self.bound:
            return self.bound[t]
        k = t[0]
        if t == self.size:
            return len(self.seq)
        if k == 'size':
            return len(self.positions(t[1]))
        if k == 'elem' and t[1] == self.arr:
            i = self.term(t[2])
            if not 0 <= i < len(self.seq):
                raise OutOfBounds()
            return self.seq[i]
        if k in ('any', 'count', 'fi'):
            n = self.eng.max_bq(t[2])
            hits = [i for i in self.positions(t[1]) if self.under({('bq', n): i}, lambda: self.node(t[2]))]
            if k == 'fi':
                if not hits:
                    raise Undefined('no first element')
                return hits[0]
            return len(hits) if k == 'count' else bool(hits)
        if k == 'sum':
            n = self.eng.max_bq(t[2])
            return sum(self.under({('bq', n): i}, lambda: self.term(t[2])) for i in self.positions(t[1]))
        if k == 'fold':
            n = max(x[1] for x in closed(self.eng, t[3], 'acc'))
            cur = self.term(t[2])
            for i in self.positions(t[1]):
                cur = self.under({('bq', n): i, ('acc', n): cur}, lambda: self.term(t[3]))
            return cur
        if k == 'foldj':
            n = max(x[1] for _, st in t[2] for x in closed(self.eng, st, 'accj'))
            cur = [self.term(i0) if i0 != ('undef',) else None for i0, _ in t[2]]
            for i in self.positions(t[1]):
                b = {('accj', n, I(j)): c for j, c in enumerate(cur)}
                b[('bq', n)] = i
                cur = self.under(b, lambda: [self.opt(st) for _, st in t[2]])
            return cur[t[3][1]]
        return self.outer(t)

    def opt(self, t):
        try:
            return self.term(t)
        except Undefined:
            return None


class OutOfBounds(Undefined):
    pass


def closed(eng, t, kind):
    found = []

    def visit(x):
        if x[0] == kind:
            found.append(x)
        return False
    subterms(eng, t, set(), visit)
    return found


CAP = 3         # sequence lengths are told apart up to here


def subterms(eng, t, seen, visit):
    """All sub-terms of t, looking through guards; `visit` stops the descent when it returns True."""
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, int):
            if x < 2 or ('n', x) in seen:
                continue
            seen.add(('n', x))
            for a in eng.M.support(x):
                if visit(a):
                    continue
                stack.extend(y for y in a if isinstance(y, tuple))
            continue
        if not x or x in seen:
            continue
        seen.add(x)
        if isinstance(x[0], str) and visit(x):
            continue
        if x[0] == 'gv':
            for g, v in x[1]:
                stack.append(g)
                stack.append(v)
        else:
            stack.extend(y for y in x if isinstance(y, tuple))


def orient(V):
    """Direction of a walk over a sequence: forward, reverse, or forward without the first n elements."""
    if V[0] == 'rev':
        return 'rev', V[1]
    if V[0] == 'drop' and V[2][0] == 'i':
        return V[2][1], V[1]
    return 'fwd', V


class Machine:
    """The registers a set of terms needs, over the sequence `seq` whose elements are ('elem', arr, ...)."""

    def __init__(self, eng, terms, isseq, iselem, size, cap=None):
        self.eng, self.isseq, self.iselem, self.size = eng, isseq, iselem, size
        self.cap = cap
        self.regs = []       # (kind, term)
        self.uses_size = False
        self.leaves = set()
        seen = set()

        def visit(x):
            if x == size:
                self.uses_size = True
                return True
            if not cap and x[0] == 'cmp' and size in x and not any(x[i][0] == 'i' and abs(x[i][1]) + abs(x[3]) < CAP for i in (1, 2)):
                raise Unsupported('the length is compared with something')
            if not cap and x[0] == 'val' and x[1] == size:
                lv = eng.M.level[x]
                for nd in eng.M.nodes[2:]:
                    if nd[0] == lv and any(not isinstance(k, tuple) or k[0] != 'i' or k[1] >= CAP for k, _ in nd[1]):
                        raise Unsupported('the length is compared with something')
            if x[0] in ('any', 'fold', 'foldj', 'count', 'fi', 'sum', 'cntb'):
                way, V = orient(x[1])
                if x[0] not in ('any', 'fold', 'foldj') or not isseq(V) or isinstance(way, int) and way >= CAP:
                    raise Unsupported('summary by %s over %s' % (x[0], eng.show(x[1])[:120]))
                if x not in self.regs:
                    self.regs.append(x)
                return True
            return False
        for t in terms:
            subterms(eng, t, seen, visit)
        ways = {orient(r[1])[0] for r in self.regs if r[0] != 'any'}
        if 'rev' in ways and len(ways) > 1:
            raise Unsupported('summaries in both directions')
        self.skip = [w if isinstance(w, int) else 0 for w in (orient(r[1])[0] for r in self.regs)]
        self.uses_size = self.uses_size or any(self.skip) or bool(cap)
        self.parts = []
        for r in self.regs:
            if r[0] == 'any':
                self.parts.append(('any', r, r[2]))
                self.scan(r[2])
            elif r[0] == 'fold':
                self.parts.append(('fold', r, r[3]))
                self.scan(r[3])
            else:
                need = self.slice(r)
                self.parts.append(('foldj', r, need))
                for i in need:
                    self.scan(r[2][i][1])

    def slice(self, r):
        todo, need = [r[3][1]], []
        while todo:
            i = todo.pop()
            if i in need:
                continue
            need.append(i)

            def visit(x):
                if x[0] == 'accj' and x[2][0] == 'i':
                    todo.append(x[2][1])
                return False
            subterms(self.eng, r[2][i][1], set(), visit)
        return sorted(need)

    def scan(self, t):
        """Element fields read by a step."""
        def path(x):
            p = []
            while x[0] == 'fld':
                p.append(x[2])
                x = x[1]
            return tuple(reversed(p)) if self.iselem(x) else None

        def visit(x):
            if x[0] in ('any', 'fold', 'foldj', 'count', 'fi', 'sum', 'cntb'):
                raise Unsupported('nested summary')
            if x[0] == 'bq':
                raise Unsupported('a step uses its position')
            p = path(x) if x[0] in ('fld', 'elem') else None
            if p is not None:
                self.leaves.add(p)
                return True
            return False
        subterms(self.eng, t, set(), visit)

    def init(self):
        ev = Eval(self.eng, lambda t: None)
        out = []
        for kind, r, x in self.parts:
            if kind == 'any':
                out.append(False)
            elif kind == 'fold':
                out.append(freeze(ev.term(r[2])))
            else:
                out.append(tuple(freeze(ev.term(r[2][i][0])) for i in x))
        return (0,) + tuple(out) if self.uses_size else (None,) + tuple(out)

    @staticmethod
    def thaw(v):
        return {k: Machine.thaw(x) for k, x in v} if isinstance(v, tuple) else v

    def step(self, st, el):
        out = []
        for (kind, r, x), cur, skip in zip(self.parts, st[1:], self.skip):
            if skip and st[0] < skip:
                out.append(cur)
            elif kind == 'any':
                out.append(cur or Eval(self.eng, lambda t: el if self.iselem(t) else None).node(x))
            elif kind == 'fold':
                c = self.thaw(cur)
                out.append(freeze(Eval(self.eng, lambda t: el if self.iselem(t) else c if t[0] == 'acc' else None).term(x)))
            else:
                c = {i: self.thaw(v) for i, v in zip(x, cur)}
                ev = Eval(self.eng, lambda t: el if self.iselem(t) else c[t[2][1]] if t[0] == 'accj' else None)
                out.append(tuple(freeze(ev.term(r[2][i][1])) for i in x))
        return (None if st[0] is None else min(self.cap or CAP, st[0] + 1),) + tuple(out)

    def leaf(self, st):
        """Binding of the closed forms in a register state."""
        env = {}
        for (kind, r, x), cur in zip(self.parts, st[1:]):
            env[r] = cur if kind == 'any' else self.thaw(cur) if kind == 'fold' else self.thaw(cur[x.index(r[3][1])])
        if st[0] is not None:
            env[self.size] = st[0]
        return env


def explore(machine, elements, spec_init, spec_step, check, limit=60000):
    """Visit every reachable (code, specification) state; check(state, spec) returns a complaint or None."""
    init = (machine.init(), spec_init)
    seen = {init: None}
    todo = [init]
    n = 0
    while todo:
        cur = todo.pop()
        bad = check(*cur)
        if bad:
            trace = []
            s = cur
            while seen[s] is not None:
                s, el = seen[s]
                trace.append(el)
            return bad, list(reversed(trace)), len(seen)
        if machine.cap and cur[0][0] >= machine.cap:
            continue
        for el, val in elements:
            n += 1
            nxt = (machine.step(cur[0], val), spec_step(cur[1], val))
            if nxt not in seen:
                if len(seen) > limit:
                    raise Unsupported('too many register states')
                seen[nxt] = (cur, el)
                todo.insert(0, nxt) if len(todo) < 2000 else todo.append(nxt)
    return None, None, len(seen)


NPOS = 2 ** 64 - 1


def pathjoin(a, b):
    return b if b.startswith('/') or not a else a + b if a.endswith('/') else a + '/' + b


class TextEval(Eval):
    """Texts, paths and what the string operations say about them."""

    def term(self, t):
        k = t[0]
        v = self.leaf(t)
        if v is not None:
            return v
        if k == 'cat':
            return ''.join(self.text(x) for x in t[1])
        if k in ('path', 'gstr', 'nstr'):
            return self.text(t[1])
        if k == 'pjoin':
            return pathjoin(self.text(t[1]), self.text(t[2]))
        if k == 'slen':
            return len(self.text(t[1]))
        if k == 'substr':
            return self.sub(t[1], t[2], t[3])
        if k == 'scmp':
            a, b = self.sub(t[1], t[2], t[3]), self.text(t[4])
            return (a > b) - (a < b)
        if k == 'scmpne':
            return 1 if self.text(t[1]) > self.text(t[2]) else -1
        if k == 'sncmp':
            n = self.term(t[3])
            a, b = self.text(t[1])[:n], self.text(t[2])[:n]
            return (a > b) - (a < b)
        if k in ('sfind', 'sfindp'):
            return self.text(t[1]).find(self.text(t[2]), self.term(t[3]) if k == 'sfindp' else 0) % 2 ** 64
        if k in ('srfind0', 'srfind'):
            b = self.text(t[2])
            end = len(b) if k == 'srfind0' else None if t[3] in (('npos',), I(NPOS)) else self.term(t[3]) + len(b)
            return self.text(t[1]).rfind(b, 0, end) % 2 ** 64
        if k == 'sat':
            x, i = self.text(t[1]), self.term(t[2])
            if not 0 <= i <= len(x):
                raise Undefined('character %d' % i)
            return ord(x[i]) if i < len(x) else 0
        return super().term(t)

    def text(self, t):
        v = self.term(t)
        if not isinstance(v, str):
            raise Undefined('text %s' % t[0])
        return v

    def sub(self, t, pos, n):
        x, i = self.text(t), self.term(pos)
        if not 0 <= i <= len(x):
            raise Undefined('substring')
        return x[i:] if n in (('npos',), I(NPOS)) else x[i:i + self.term(n)]
