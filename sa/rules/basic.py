"""Gid helpers (C60-C62) and DDS time clamping (C70, C71)."""
from core import Inconclusive, contains_term, where, loc
from engine import S, I, TRUE, FALSE, EMPTY, UNDEF, NULL, Unsupported
from mdd import Mgr
import linear
from linear import lin, ge, gt, add, scale, eq2

N = 16
FLIP = str.maketrans('<>', '><')


def gid_fields(t, a, b):
    """'l'/'r' when t is the byte array of one of the two gids."""
    if t[0] == 'vslice':
        t = t[1]
    if t == ('fld', a, 'data'):
        return 'l'
    if t == ('fld', b, 'data'):
        return 'r'
    return None


class Bytes:
    """Relations between two gids, as functions of the 16 three-way byte comparisons."""

    def __init__(self, eng, a, b):
        self.eng, self.a, self.b = eng, a, b
        self.M = Mgr()
        for i in range(N):
            self.M.var(i, '<=>')
        self.bad = []
        self.known = {}

    def byte(self, i, ks):
        return self.M.lit(i, tuple(ks), '<=>')

    def lex(self, lo, hi, ks, mirrored):
        """The lexicographic order of the bytes lo..hi-1 takes one of ks."""
        M = self.M
        if mirrored:
            ks = ks.translate(str.maketrans('<>', '><'))
        r = 1 if '=' in ks else 0
        for i in reversed(range(lo, hi)):
            r = M.OR(M.AND(self.byte(i, '='), r), M.ORs(*[self.byte(i, k) for k in ks if k != '=']))
        return r

    def window(self, t):
        """(lo, hi, mirrored) of a comparison of two byte windows."""
        x, y = gid_fields(t[1], self.a, self.b), gid_fields(t[2], self.a, self.b)
        if not x or not y or x == y:
            return None
        if t[0] in ('eq', 'lexcmp'):
            return 0, N, x == 'r'
        if t[0] == 'memcmp' and t[3][0] == 'i' and t[4] == t[5] and t[4][0] == 'i':
            lo, hi = t[4][1], t[4][1] + t[3][1]
        elif t[0] == 'lexlt' and t[3] == t[4] and t[3][0] == 'i':
            lo, hi = 0, t[3][1]
            if t[1][0] == 'vslice' or t[2][0] == 'vslice':
                sl = [v[2:4] if v[0] == 'vslice' else (I(0), I(N)) for v in t[1:3]]
                if sl[0] != sl[1] or sl[0][0][0] != 'i' or sl[0][1][0] != 'i':
                    return None
                lo, hi = sl[0][0][1], sl[0][1][1]
        else:
            return None
        if not 0 <= lo <= hi <= N:
            self.bad.append('compares bytes %d..%d of %d' % (lo, hi, N))
            return None
        return lo, hi, x == 'r'

    def atom(self, a):
        """[(keys, node)] or None."""
        M = self.M
        if a[0] in ('lexlt', 'eq'):
            w = self.window(a)
            if not w:
                return None
            n = self.lex(w[0], w[1], '<' if a[0] == 'lexlt' else '=', w[2])
            return lambda keys, d: n if (1 in keys) != d else M.NOT(n)
        if a[0] == 'val' and a[1][0] in ('lexcmp', 'memcmp'):
            w = self.window(a[1])
            if not w:
                return None
            n = self.lex(w[0], w[1], '=', w[2])
            return lambda keys, d: (n if (I(0) in keys) != d else M.NOT(n)) if keys == {I(0)} else None
        if a[0] in ('cmp', 'rcmp') and a[1][0] in ('lexcmp', 'memcmp') and a[2] == I(0) and (a[0] == 'rcmp' or a[3] == 0):
            w = self.window(a[1])
            if not w:
                return None
            return lambda keys, d: self.lex(w[0], w[1], ''.join(k for k in '<=>' if (k in keys) != d), w[2])
        if a[0] == 'rcmp' and a[2][0] in ('lexcmp', 'memcmp') and a[1] == I(0):
            w = self.window(a[2])
            if not w:
                return None
            return lambda keys, d: self.lex(w[0], w[1], ''.join(k for k in '<=>' if (k in keys) != d).translate(FLIP), w[2])
        if a[0] in ('cmp', 'rcmp') and (a[0] == 'rcmp' or a[3] == 0) and a[1][0] == 'elem' and a[2][0] == 'elem':
            x, y = gid_fields(a[1][1], self.a, self.b), gid_fields(a[2][1], self.a, self.b)
            i, j = a[1][2], a[2][2]
            if x and y and x != y and i == j and i[0] == 'i' and 0 <= i[1] < N:
                sw = str.maketrans('<>', '><') if x == 'r' else {}
                return lambda keys, d: self.byte(i[1], ''.join(k for k in '<=>' if (k in keys) != d).translate(sw))
        if a[0] == 'val':
            z = self.zero(a[1], 64)
            if z is not None:
                return lambda keys, d: (z if (I(0) in keys) != d else M.NOT(z)) if keys == {I(0)} else None
        if a[0] == 'rcmp' and I(0) in a[1:3]:
            z = self.zero(a[2] if a[1] == I(0) else a[1], 64)
            if z is not None:
                pos = self.sign(a[2] if a[1] == I(0) else a[1])
                if pos is not None:
                    fl = FLIP if a[1] == I(0) else {}
                    return lambda keys, d: M.ORs(*[pos[k.translate(fl)] for k in '<=>' if (k in keys) != d])
                return lambda keys, d: ({frozenset('='): z, frozenset('<>'): M.NOT(z), frozenset('<=>'): 1, frozenset(): 0}
                                        .get(frozenset(k for k in '<=>' if (k in keys) != d)))
        return None

    def single(self, t):
        """Index of the one byte position a term depends on (in both gids), or None."""
        idx = set()

        def visit(x):
            if x[0] == 'elem':
                idx.add(x[2][1] if gid_fields(x[1], self.a, self.b) and x[1][0] != 'vslice' and x[2][0] == 'i' else None)
            elif x[0] in ('fld', 'sym', 'deref', 'res', 'lv'):
                return False
            return False
        contains_term(t, visit)
        return idx.pop() if len(idx) == 1 and None not in idx else None

    def classes(self, t):
        """{'<', '=', '>' of the byte pair: set of values of t}, by going through all 65536 pairs."""
        from exact import Exact
        i = self.single(t)
        if i is None or not 0 <= i < N:
            return None, None
        key = self.shift(t)
        if key not in self.known:
            out = {'<': set(), '=': set(), '>': set()}
            for x in range(256):
                for y in range(256):
                    v = Exact(self.eng, lambda u: None if u[0] != 'elem' else x if gid_fields(u[1], self.a, self.b) == 'l' else y).num(t)
                    out['<' if x < y else '>' if x > y else '='].add(v)
            self.known[key] = out
        return i, self.known[key]

    def shift(self, t):
        if not isinstance(t, tuple):
            return t
        if t and t[0] == 'elem':
            return ('elem', t[1])
        return tuple(self.shift(x) for x in t)

    def zero(self, t, bits):
        """Node of: the low bits of t are zero, or None."""
        M = self.M
        if t[0] == 'i':
            return 1 if t[1] & ((1 << bits) - 1) == 0 else 0
        if t[0] == 'c':
            return self.zero(t[3], min(bits, t[1]))
        if t[0] == 'trunc':
            return self.zero(t[2], min(bits, t[1][1]))
        if t[0] == 'gv':
            return None
        if t[0] == 'w' and t[1] == '|':
            x, y = self.zero(t[4], min(bits, t[2])), self.zero(t[5], min(bits, t[2]))
            return None if x is None or y is None else M.AND(x, y)
        try:
            i, cl = self.classes(t)
        except Unsupported:
            return None
        if i is None:
            return None
        n = 0
        for k, vs in cl.items():
            zs = {v & ((1 << bits) - 1) == 0 for v in vs}
            if len(zs) == 2:
                return None
            if zs == {True}:
                n = M.OR(n, self.byte(i, k))
        return n

    def sign(self, t):
        """{'<', '=', '>': node of t being negative, zero, positive}, or None."""
        try:
            i, cl = self.classes(t)
        except Unsupported:
            return None
        if i is None:
            return None
        out = {'<': 0, '=': 0, '>': 0}
        for k, vs in cl.items():
            zs = {'<' if v < 0 else '>' if v > 0 else '=' for v in vs}
            if len(zs) != 1:
                return None
            s = zs.pop()
            out[s] = self.M.OR(out[s], self.byte(i, k))
        return out

    def only_gids(self, t):
        """A condition on the gids that is not about their bytes."""
        if t in (('fld', self.a, 'data'), ('fld', self.b, 'data')):
            return False
        if t in (self.a, self.b):
            return True
        if t[0] in ('fld', 'elem', 'deref', 'cstrof', 'val', 'eq', 'cmp'):
            return all(self.only_gids(x) for x in t[1:] if isinstance(x, tuple))
        return t[0] in ('i', 's', 'null', 'sym')

    def tr(self, n, memo):
        if n in (0, 1):
            return n
        if n in memo:
            return memo[n]
        M = self.M
        lv, ent, d = self.eng.M.nodes[n]
        at = self.eng.M.vars[lv]
        f = self.atom(at)
        if f is None and self.only_gids(at):
            f = lambda keys, d: M.lit(('other', at), tuple(sorted(keys, key=repr))) if not d else M.NOT(M.lit(('other', at), tuple(sorted(keys, key=repr))))
        if f is None:
            raise Inconclusive('the comparison uses %s%s' % (self.eng.show(at)[:200], ': ' + self.bad[0] if self.bad else ''))
        r = 0
        for k, c in ent:
            g = f({k}, False)
            if g is None:
                raise Inconclusive('the comparison uses %s' % self.eng.show(at)[:200])
            r = M.OR(r, M.AND(g, self.tr(c, memo)))
        g = f({k for k, _ in ent}, True)
        if g is None:
            raise Inconclusive('the comparison uses %s' % self.eng.show(at)[:200])
        r = M.OR(r, M.AND(g, self.tr(d, memo)))
        memo[n] = r
        return r

    def mirror(self, n, memo=None):
        memo = {} if memo is None else memo
        if n in (0, 1):
            return n
        if n not in memo:
            at, kids = self.M.branches(n)
            if isinstance(at, tuple):
                raise Inconclusive('the order uses %s' % self.eng.show(at)[:200])
            memo[n] = self.M.ORs(*[self.M.AND(self.byte(at, k[0].translate(str.maketrans('<>', '><'))), self.mirror(c, memo))
                                   for k, c in kids])
        return memo[n]


def retbool(ctx, eng, outs, what):
    """Node of `returns true`; everything else is an obligation failure."""
    M, r, thrown = eng.M, 0, 0
    for k, s, v in outs:
        if k == 'r':
            r = M.OR(r, M.AND(s.cond, eng.node(v)))
        else:
            thrown = M.OR(thrown, s.cond)
    return r, thrown


def gid_relation(ctx, fn, **opt):
    eng = ctx.engine(**opt)
    ps = fn.body['p']
    refs = [i for i, p in enumerate(ps)]
    names = ['lhs', 'rhs']
    if len(ps) != 2:
        raise Inconclusive('%s does not take two gids' % fn.q)
    outs = ctx.run(eng, fn, eng.entry_args(fn, names))
    byref = [fn.tu.type(p['t']).k in ('ref', 'rref') for p in ps]
    a, b = [('deref', ('sym', n)) if r else ('sym', n) for n, r in zip(names, byref)]
    r, thrown = retbool(ctx, eng, outs, fn.q)
    return eng, Bytes(eng, a, b), r, thrown


def is_gid(fn, i):
    t = fn.tu.type(fn.body['p'][i]['t'])
    t = t.noref if t.k in ('ref', 'rref') else t
    return t.rec == 'rmw_gid_s' or t.rec == 'rmw_gid_t'


def samples():
    """Representative gids: one or two bytes differ, with values around the signed and unsigned limits."""
    base = [(0,) * N, tuple(range(1, N + 1)), (255,) * N, (128,) * N]
    out = list(base)
    for i in range(N):
        for b in base[:2]:
            for v in (0, 1, 100, 127, 128, 200, 255):
                out.append(b[:i] + (v,) + b[i + 1:])
    for i in range(N - 1):
        for v in ((1, 255), (255, 1), (128, 127), (127, 128), (0, 9), (1, 0), (0, 17), (0, 31), (0, 33), (0, 37), (0, 131)):
            out.append((0,) * i + v + (0,) * (N - 2 - i))
    return list(dict.fromkeys(out))


def refute(ctx, fn, role, w):
    """The comparison on concrete bytes, where the diagrams cannot express it; a definite violation or nothing."""
    from exact import Exact
    eng, B, n, thrown = gid_relation(ctx, fn, exact=True)
    gids = samples()
    memo = {}

    def rel(x, y):
        if (x, y) not in memo:
            def leaf(t):
                if t[0] == 'elem' and t[2][0] == 'i' and 0 <= t[2][1] < N:
                    side = gid_fields(t[1], B.a, B.b)
                    if side and t[1][0] != 'vslice':
                        return (x if side == 'l' else y)[t[2][1]]
                if t[0] in ('eq', 'lexlt', 'lexcmp', 'memcmp'):
                    m = B.window(t)
                    if m:
                        a, b = (y, x) if m[2] else (x, y)
                        a, b = a[m[0]:m[1]], b[m[0]:m[1]]
                        return a == b if t[0] == 'eq' else a < b if t[0] == 'lexlt' else (a > b) - (a < b)
                return None
            memo[x, y] = Exact(eng, leaf).node(n)
        return memo[x, y]
    sh = lambda g: '.'.join('%x' % b for b in g)
    bad = None
    pairs = [(a, b) for a in gids for b in gids if sum(p != q for p, q in zip(a, b)) <= 2]
    for a, b in pairs:
        if role == 'eq':
            if rel(a, b) != (a == b):
                bad = '%s and %s compare %s' % (sh(a), sh(b), 'different' if a == b else 'equal')
        elif a == b:
            if rel(a, b):
                bad = '%s is ordered before itself' % sh(a)
        elif rel(a, b) and rel(b, a):
            bad = '%s and %s are each ordered before the other' % (sh(a), sh(b))
        elif not rel(a, b) and not rel(b, a):
            bad = '%s and %s are equivalent for the map' % (sh(a), sh(b))
        if bad:
            break
    if not bad and role == 'lt':
        vals = (0, 1, 100, 127, 128, 200, 255)
        for i in range(N):
            gs = [(0,) * i + (v,) + (0,) * (N - 1 - i) for v in vals]
            for a in gs:
                for b in gs:
                    for c in gs:
                        if rel(a, b) and rel(b, c) and not rel(a, c):
                            bad = 'the order is not transitive: %s, %s, %s' % (sh(a), sh(b), sh(c))
    if bad:
        ctx.ob('order of representative gids' if role == 'lt' else 'equality of representative gids', w, False, bad)
    return bool(bad)


def c60(ctx):
    ctx.rule('The comparator and operator== of gids are computed as decision diagrams over the 16 three-way byte comparisons; '
             'irreflexivity, totality, asymmetry and transitivity (by composing the diagrams) and agreement with equality are decided on them.')
    lt = ctx.one('rmw_dds_common::Compare_rmw_gid_t::operator()', 2)
    eq = ctx.one('rmw_dds_common::operator==', 2, lambda f: is_gid(f, 0))
    for fn, role in ((lt, 'lt'), (eq, 'eq')):
        w = where(fn)
        eng, B, n, thrown = gid_relation(ctx, fn, exact=True)
        M = B.M
        alleq = M.ANDs(*[B.byte(i, '=') for i in range(N)])
        ctx.ob('never throws', w, thrown == 0, 'the comparison can throw')
        stops = [a for a in eng.M.support(n) if contains_term(a, lambda t: t[0] in ('sncmp', 'scmp', 'cstrof'))]
        if stops:
            ctx.ob('all bytes', w, False, 'the comparison stops at the first zero byte')
            continue
        try:
            R = B.tr(n, {})
        except Inconclusive as ex:
            if B.bad:
                ctx.ob('stays inside the gid', w, False, B.bad[0])
                continue
            try:
                if refute(ctx, fn, role, w):
                    continue
            except Unsupported:
                pass
            raise ex
        ctx.site('%s: %d decision nodes over %d byte comparisons' % (fn.q, M.size(R), len(M.support(R))))
        if role == 'eq':
            for i in range(N):
                d = M.AND(R, B.byte(i, '<>'))
                ctx.ob('equality looks at every byte', '%s byte %d' % (w, i), d == 0, 'gids that differ in byte %d compare equal' % i)
            ctx.ob('equal gids compare equal', w, M.AND(alleq, M.NOT(R)) == 0, 'two gids with the same bytes compare different')
            continue
        mir = B.mirror(R)
        ctx.ob('irreflexive', w, M.AND(R, alleq) == 0, 'a gid is ordered before itself')
        ctx.ob('asymmetric', w, M.AND(R, mir) == 0, 'two gids are each ordered before the other')
        for i in range(N):
            d = M.ANDs(M.NOT(R), M.NOT(mir), B.byte(i, '<>'))
            ctx.ob('total: distinct gids are never equivalent', '%s byte %d' % (w, i), d == 0,
                   'gids that differ in byte %d are equivalent for the map: one shadows the other' % i)
        ctx.ob('transitive', w, transitive(B, R), 'a<b and b<c do not imply a<c')
    ctx.assume('rmw_gid_t holds RMW_GID_STORAGE_SIZE = %d bytes' % N, 'memcmp and std::lexicographical_compare order bytes as unsigned numbers')


def transitive(B, R):
    T = Mgr()
    for i in range(N):
        for c in 'uvw':
            T.var((c, i), '<=>')

    def copy(n, c, memo):
        if n in (0, 1):
            return n
        if n not in memo:
            at, kids = B.M.branches(n)
            memo[n] = T.ORs(*[T.AND(T.lit((c, at), k, '<=>'), copy(x, c, memo)) for k, x in kids])
        return memo[n]
    comp = {('<', '<'): '<', ('<', '='): '<', ('=', '<'): '<', ('=', '='): '=', ('>', '>'): '>', ('>', '='): '>', ('=', '>'): '>',
            ('<', '>'): '<=>', ('>', '<'): '<=>'}
    r = T.ANDs(copy(R, 'u', {}), copy(R, 'v', {}), T.NOT(copy(R, 'w', {})))
    for i in reversed(range(N)):
        c = T.ORs(*[T.ANDs(T.lit(('u', i), (a,), '<=>'), T.lit(('v', i), (b,), '<=>'), T.lit(('w', i), tuple(w), '<=>'))
                    for (a, b), w in comp.items()])
        r = T.AND(r, c)
    return r == 0


def c61(ctx):
    ctx.rule('The memory effect of both conversions is computed; each of the 16 destination bytes must equal the source byte of the same index, '
             'on every path, and the source must be unchanged.')
    for q, src, dst in (('rmw_dds_common::convert_gid_to_msg', 0, 1), ('rmw_dds_common::convert_msg_to_gid', 0, 1)):
        fn = ctx.one(q, 2)
        w = where(fn)
        eng = ctx.engine()
        M = eng.M
        outs = ctx.run(eng, fn, eng.entry_args(fn, ['from', 'to']))
        for k, s, v in outs:
            c = M.AND(s.cond, eng.care())
            if c == 0:
                continue
            if k != 'r':
                ctx.ob('conversion returns', w, False, 'the conversion can throw')
                continue
            d0 = ('deref', ('sym', 'from'))
            old = eng.sel(d0, ('f', 'data'))
            new = eng.sel(eng.read(s, (('m', ('sym', 'to')), ())), ('f', 'data'))
            now = eng.sel(eng.read(s, (('m', ('sym', 'from')), ())), ('f', 'data'))
            for i in range(N):
                for g, x in eng.alts(eng.elem(new, I(i))):
                    g = M.AND(g, c)
                    if g:
                        e = eng.eq(x, eng.elem(old, I(i))) if x != UNDEF else 0
                        ctx.ob('byte copied', '%s byte %d' % (w, i), M.AND(g, M.NOT(e)) == 0,
                               'byte %d of the destination is %s' % (i, eng.show(x)[:200]), unknown=odd(x))
            ctx.ob('source unchanged', w, M.AND(c, M.NOT(eng.eq(now, old))) == 0, 'the source gid is modified')
    ctx.assume('both pointers are valid (asserted)', 'rmw_gid_t::data and msg::Gid::data have %d bytes' % N)


def odd(x):
    if contains_term(x, lambda t: t[0] == 'res' and str(t[1]).replace('std::', '') in ('strncpy', 'strcpy', 'snprintf')):
        return False    # stops at a zero byte
    if x[0] == 'elem' and x[1][0] == 'partial' and x[1][3][0] == 'res' and str(x[1][3][1]).replace('std::', '') in ('strlen', 'strnlen'):
        return False    # as many bytes as there are before the first zero byte
    return contains_term(x, lambda t: t[0] in ('res', 'op', 'lv', 'app', 'memcpy', 'cb'))


FLAG = {'boolalpha': 1, 'dec': 2, 'fixed': 4, 'hex': 8, 'internal': 16, 'left': 32, 'oct': 64, 'right': 128, 'scientific': 256,
        'showbase': 512, 'showpoint': 1024, 'showpos': 2048, 'skipws': 4096, 'unitbuf': 8192, 'uppercase': 16384}
BASE, ADJUST = FLAG['dec'] | FLAG['hex'] | FLAG['oct'], FLAG['left'] | FLAG['right'] | FLAG['internal']
BITS = {'int': 32, 'unsigned int': 32, 'long': 64, 'unsigned long': 64, 'long long': 64, 'unsigned long long': 64, 'short': 16,
        'unsigned short': 16}


class Stream:
    """Formatting state of an output stream and what was written: ('s', text), ('t', term) or ('n', type, term, flags, fill, width)."""

    def __init__(self):
        self.flags, self.fill, self.width = FLAG['skipws'] | FLAG['dec'], ' ', 0
        self.toks = []
        self.hist = []        # states before each event

    def state(self):
        return {'flags': self.flags, 'fill': ord(self.fill), 'width': self.width, 'precision': 6}

    def text(self, t):
        if t[0] == 's' and self.width > len(t[1]):
            pad = self.fill * (self.width - len(t[1]))
            t = ('s', t[1] + pad if self.flags & ADJUST == FLAG['left'] else pad + t[1])
        elif t[0] != 's' and self.width:
            raise Inconclusive('text of unknown length in a field')
        self.width = 0
        self.raw(t)

    def raw(self, t):
        if t == ('s', ''):
            return
        if self.toks and self.toks[-1][0] == 's' and t[0] == 's':
            self.toks[-1] = ('s', self.toks[-1][1] + t[1])
        else:
            self.toks.append(t)

    def setf(self, bits, mask):
        self.flags = self.flags & ~mask | bits & mask

    def value(self, t):
        """An argument of a state changing call."""
        if t[0] == 'i':
            return t[1]
        if t[0] == 'ostate' and t[2] <= len(self.hist) and t[1] in ('flags', 'fill', 'width', 'precision'):
            return (self.hist[t[2]] if t[2] < len(self.hist) else self.state())[t[1]]
        raise Inconclusive('a stream state that is not followed')

    def manip(self, name, args):
        if name in ('hex', 'dec', 'oct'):
            self.setf(FLAG[name], BASE)
        elif name in ('left', 'right', 'internal'):
            self.setf(FLAG[name], ADJUST)
        elif name in ('showbase', 'uppercase', 'boolalpha', 'showpos'):
            self.flags |= FLAG[name]
        elif name in ('noshowbase', 'nouppercase', 'noboolalpha', 'noshowpos'):
            self.flags &= ~FLAG[name[2:]]
        elif name in ('endl', 'ends'):
            self.raw(('s', '\n'))
        elif name == 'setw' or name == 'width':
            self.width = self.value(args[0])
        elif name in ('setfill', 'fill'):
            self.fill = chr(self.value(args[0]))
        elif name == 'setbase':
            self.setf({16: FLAG['hex'], 8: FLAG['oct'], 10: FLAG['dec']}.get(self.value(args[0]), 0), BASE)
        elif name == 'flags':
            self.flags = self.value(args[0])
        elif name == 'setf' and len(args) == 1 or name == 'setiosflags':
            self.flags |= self.value(args[0])
        elif name == 'setf':
            self.setf(self.value(args[0]), self.value(args[1]))
        elif name == 'unsetf' or name == 'resetiosflags':
            self.flags &= ~self.value(args[0])
        elif name not in ('flush', 'precision'):
            return False
        return True


def simulate(eng, evs, streams):
    """Plays formatted output events; returns an unmodelled event or None."""
    for ev in evs:
        if ev[0] != 'out':
            continue
        if ev[2] == ('new',):
            streams[ev[1]] = Stream()
            continue
        st = streams.setdefault(ev[1], Stream())
        before = st.state()
        o = ev[2]
        if o[0] == 'manip' and len(o) == 3:
            if o[2][0] != 'manipv' or not st.manip(o[2][1].split('::')[-1], o[2][2:]):
                return ev
        elif o[0] == 'manip':
            if not st.manip(o[1].split('::')[-1], ()):
                return ev
        elif o[0] == 'flags':
            if not st.manip(o[1], o[2:]):
                return ev
        elif o[0] == 'str':
            t = o[1]
            if t[0] == 's':
                st.text(t)
            elif t[0] == 'ossstr' and t[1] in streams:
                for x in streams[t[1]].toks:
                    st.raw(x)
                st.width = 0
            else:
                st.text(('t', t))
        elif o[0] == 'fmt':
            if 'char' in o[1] and o[2][0] == 'i':
                st.text(('s', chr(o[2][1] & 255)))
            else:
                st.raw(('n', o[1], o[2], st.flags, st.fill, st.width))
                st.width = 0
        else:
            return ev
        st.hist.append(before)
    return None


def rendered(tok, val):
    """Text of a formatted integer; val gives the value of its term."""
    ty, flags, fill, width = tok[1], tok[3], tok[4], tok[5]
    v = val(tok[2])
    if 'char' in ty:
        s = chr(v & 255)
    elif ty == 'bool':
        s = ('true' if v else 'false') if flags & 1 else str(int(v))
    else:
        bits = BITS.get(ty)
        if bits is None:
            raise Inconclusive('output of a %s' % ty)
        base = flags & BASE
        u = v & ((1 << bits) - 1)
        if base == FLAG['hex']:
            s = ('0x' if flags & FLAG['showbase'] and u else '') + '%x' % u
        elif base == FLAG['oct']:
            s = ('0' if flags & FLAG['showbase'] and u else '') + '%o' % u
        else:
            n = u if ty.startswith('unsigned') or u < 1 << (bits - 1) else u - (1 << bits)
            s = ('+' if flags & FLAG['showpos'] and n >= 0 and not ty.startswith('unsigned') else '') + str(n)
        if flags & FLAG['uppercase']:
            s = s.upper()
    if width > len(s):
        pad = fill * (width - len(s))
        s = s + pad if flags & ADJUST == FLAG['left'] else pad + s
    return s


def printed(eng, toks, gd, gid):
    from exact import Exact
    ev = Exact(eng, lambda t: gid[t[2][1]] if t[0] == 'elem' and t[1] == gd and t[2][0] == 'i' and 0 <= t[2][1] < N else None)
    out = ''
    for t in toks:
        if t[0] == 't':
            raise Unsupported('text %s' % eng.show(t[1])[:100])
        out += t[1] if t[0] == 's' else rendered(t, ev.term)
    return out


def hexnum(s, v):
    """s is a hexadecimal number (any case, zero padding or 0x prefix) of value v."""
    try:
        return s.isascii() and s.isalnum() and int(s, 16) == v
    except ValueError:
        return False


def c62(ctx):
    ctx.rule('The output operator is unrolled and its formatted outputs are replayed on a model of the stream\'s formatting state; the text '
             'must be the 16 bytes in order, each as a hexadecimal number (all 256 values of each), separated by single dots, and the '
             'state (base, fill, width, flags) must end up as it was.')
    fs = ctx.find('rmw_dds_common::operator<<', 2, lambda f: is_gid(f, 1))
    for fn in fs[:1]:
        w = where(fn)
        eng = ctx.engine(exact=True)
        outs = ctx.run(eng, fn, eng.entry_args(fn, ['os', 'gid']))
        gd = ('fld', ('deref', ('sym', 'gid')), 'data')
        for k, s, v in outs:
            if k != 'r':
                ctx.ob('printing returns', w, False, 'the operator can throw')
                continue
            sloc = (('m', ('sym', 'os')), ())
            streams = {sloc: Stream()}
            bad = simulate(eng, s.ev, streams)
            if bad is not None:
                raise Inconclusive('stream output %s' % eng.show(bad[2])[:200])
            if any(e[0] in ('loop', 'br') for e in s.ev):
                raise Inconclusive('output inside a loop that was not unrolled')
            st = streams[sloc]
            ctx.ob('returns the stream', w, v == ('lref', sloc), 'returns %s' % eng.show(v)[:100])
            nums = [t for t in st.toks if t[0] == 'n']
            strange = any(t[0] == 't' for t in st.toks)
            aligned = len(nums) == N
            for i, t in enumerate(nums):
                used = set()
                contains_term(t[2], lambda x: used.add(x) if x[0] == 'elem' else False)
                aligned = aligned and used <= {('elem', gd, I(i))}
            zero = (0,) * N
            for i in range(N):
                bad = None
                for x in range(256):
                    g = zero[:i] + (x,) + zero[i + 1:]
                    text = printed(eng, st.toks, gd, g)
                    parts = text.split('.')
                    if len(parts) != N or not all(hexnum(p, b) for p, b in zip(parts, g)):
                        bad = 'the gid %s is printed as %r' % ('.'.join('%x' % b for b in g), text)
                        break
                ctx.ob('bytes in hexadecimal, in order, separated by dots', '%s byte %d' % (w, i), not bad, bad or '')
            g = tuple(range(0x10, 0x10 + 14 * N, 14))
            text = printed(eng, st.toks, gd, g)
            ctx.ob('bytes in hexadecimal, in order, separated by dots', '%s distinct bytes' % w,
                   [hexnum(p, b) for p, b in zip(text.split('.'), g)] == [True] * N, 'printed as %r' % text)
            ctx.ob('each number depends on its own byte', w, aligned and not strange,
                   'the numbers printed do not each depend on one byte', unknown=True)
            b = st.flags & BASE
            ctx.ob('integer base restored', w, b in (0, FLAG['dec']), 'the stream is left in %s mode' % ('hex' if b == FLAG['hex'] else 'oct'))
            ctx.ob('formatting restored', w, st.fill == ' ' and not st.width and not (st.flags ^ (FLAG['dec'] | FLAG['skipws'])) & ~BASE & ~ADJUST,
                   'the stream is left with fill %r, width %d, flags %#x' % (st.fill, st.width, st.flags))
    ctx.assume('the caller\'s stream has default formatting (no width, no showbase)')


# ---------------------------------------------------------------------------------------------------------------- time
MAXSEC = 2 ** 31 - 1
NS = 10 ** 9


def clamp_exits(ctx):
    fn = ctx.one('rmw_dds_common::clamp_rmw_time_to_dds_time', 1)
    eng = ctx.engine(exact=True)
    outs = ctx.run(eng, fn, eng.entry_args(fn, ['time']))
    byref = fn.tu.type(fn.body['p'][0]['t']).k in ('ref', 'rref')
    src = ('deref', ('sym', 'time')) if byref else ('sym', 'time')
    leaves = {('fld', src, 'sec'): 'sec', ('fld', src, 'nsec'): 'nsec'}
    base = linear.Poly([ge(lin(0, sec=1), lin(0)), ge(lin(2 ** 64 - 1), lin(0, sec=1)), ge(lin(0, q=1), lin(0)), ge(lin(0, m=1), lin(0)),
                        ge(lin(NS - 1), lin(0, m=1)), ge(lin(2 ** 64 - 1), lin(0, q=NS, m=1))] + eq2(lin(0, nsec=1), lin(0, q=NS, m=1)))
    memo = {('quot', frozenset({('nsec', 1)}), 0, NS): (lin(0, q=1), lin(0, m=1))}
    for k, s, v in outs:
        F = linear.Forms(leaves)
        if k != 'r':
            yield fn, eng, k, None, None, None
            continue
        for P, m in F.cubes(eng.M, s.cond, base, memo):
            for gs, sec in split(eng, F, eng.sel(v, ('f', 'sec')), P, m):
                for gn, nsec in split(eng, F, eng.sel(v, ('f', 'nsec')), gs[0], gs[1]):
                    for P1, fs, m1 in F.form(sec, gn[0], gn[1]):
                        for P2, fn_, m2 in F.form(nsec, P1, m1):
                            yield fn, eng, k, P2, fs, fn_


def split(eng, F, v, P, m):
    if v[0] != 'gv':
        return [((P, m), v)]
    out = []
    for g, x in v[1]:
        for P1, m1 in F.cubes(eng.M, g, P, m):
            out += split(eng, F, x, P1, m1)
    return out


def witness(pt):
    return 'sec=%s nsec=%s' % (pt.get('sec', 0), pt.get('q', 0) * NS + pt.get('m', 0)) if pt else 'no integer point found'


def judge(ctx, rule, w, P, tests):
    """tests: alternatives (lists of constraints) whose feasibility inside P breaks the rule."""
    hit = None
    rational = False
    for t in tests:
        pt = linear.solve(P.cons + list(t))
        if pt is None:
            continue
        if pt == ():
            rational = True
            continue
        hit = pt
        break
    ctx.ob(rule, w, hit is None and not rational, 'infeasible' if hit is None and not rational else 'broken for %s' % witness(hit), unknown=hit is None and rational)


def c70(ctx):
    ctx.rule('Every path of the clamp is a polyhedron over (sec, nsec div 1e9, nsec mod 1e9), machine arithmetic modelled with wrap-around; '
             'the result must satisfy 0 <= sec <= INT32_MAX and 0 <= nsec < 1e9 in all of them.')
    n = 0
    for fn, eng, k, P, s, ns in clamp_exits(ctx):
        w = where(fn)
        if k != 'r':
            ctx.ob('clamp returns', w, False, 'the clamp can throw')
            continue
        n += 1
        judge(ctx, 'seconds in range', '%s path %d' % (w, n), P, [[gt(s, lin(MAXSEC))], [gt(lin(0), s)]])
        judge(ctx, 'nanoseconds normalised', '%s path %d' % (w, n), P, [[gt(ns, lin(NS - 1))], [gt(lin(0), ns)]])
    ctx.assume('int is 32 bits wide, rmw_time_t has two uint64_t members')


def c71(ctx):
    ctx.rule('On the same polyhedra: where sec + nsec div 1e9 <= INT32_MAX the result must be (sec + nsec div 1e9, nsec mod 1e9), '
             'everywhere else (INT32_MAX, 999999999).')
    n = 0
    for fn, eng, k, P, s, ns in clamp_exits(ctx):
        w = where(fn)
        if k != 'r':
            ctx.ob('clamp returns', w, False, 'the clamp can throw')
            continue
        n += 1
        T, m = lin(0, sec=1, q=1), lin(0, m=1)
        fits, over = ge(lin(MAXSEC), T), gt(T, lin(MAXSEC))
        w = '%s path %d' % (w, n)
        judge(ctx, 'representable durations keep their value', w, P,
              [[fits, gt(s, T)], [fits, gt(T, s)], [fits, gt(ns, m)], [fits, gt(m, ns)]])
        judge(ctx, 'longer durations saturate', w, P,
              [[over, gt(s, lin(MAXSEC))], [over, gt(lin(MAXSEC), s)], [over, gt(ns, lin(NS - 1))], [over, gt(lin(NS - 1), ns)]])
    ctx.assume('int is 32 bits wide, rmw_time_t has two uint64_t members')


RULES = {'C60': (c60, ['gid_utils']), 'C61': (c61, ['gid_utils']), 'C62': (c62, ['gid_utils']),
         'C70': (c70, ['time_utils']), 'C71': (c71, ['time_utils'])}
