"""Path-sensitive abstract interpreter over the exported program.

Abstract state: a store of value numbers (terms), a path condition kept as a
decision diagram over atoms, an event log, the RAII obligations of the open
scopes and the locks held.  Paths that agree on events are merged; the merged
values are guarded by the diagram, so nothing is lost by merging.  Loops over
literal collections are unrolled; other loops are summarised by one generic
iteration whose carried variables are havocked (see loops.py).  No program is
run and no solver is called: infeasibility is decided by the diagram alone.
"""
from mdd import Mgr
from prog import strip_tmpl

UNDEF = ('undef',)
NULL = ('null',)
EMPTY = ('empty',)
ABSENT = ('absent',)
END = ('end',)
BEGIN = ('begin',)


def I(n):
    return ('i', int(n))


def S(s):
    return ('s', s)


TRUE, FALSE = I(1), I(0)
CONSTK = ('i', 's', 'null', 'fn', 'absent', 'empty', 'flt')


class Unsupported(Exception):
    pass


def counter(t):
    """A loop counter: it stays below a bound, so that it does not wrap."""
    while t[0] == 'add':
        t = t[1]
    return t[0] in ('lv', 'bq')


class NoMerge(Exception):
    pass


def st_(name, **f):
    return ('st', name, tuple(sorted(f.items())))


def st_fields(v):
    return dict(v[2])


def filled(t):
    """A text that has at least one character."""
    if t[0] == 's':
        return t[1] != ''
    if t[0] == 'cat':
        return any(filled(x) for x in t[1])
    if t[0] in ('gstr', 'nstr'):
        t = t[1]
    return t[0] == 'pjoin' and filled(t[2])


def cat(*xs):
    parts = []
    for x in xs:
        for p in (x[1] if x[0] == 'cat' else (x,)):
            if p == S(''):
                continue
            if parts and p[0] == 's' and parts[-1][0] == 's':
                parts[-1] = S(parts[-1][1] + p[1])
            else:
                parts.append(p)
    if not parts:
        return S('')
    if len(parts) == 1:
        return parts[0]
    return ('cat', tuple(parts))


def distinct(l1, l2):
    """Two locations that cannot be the same object."""
    if l1[0] != l2[0]:
        return l1[0][0] in ('v', 't', 'x', 'c', 'h') and l2[0][0] in ('v', 't', 'x', 'c', 'h')
    for p, q in zip(l1[1], l2[1]):
        if p == q:
            continue
        if p[0] != q[0]:
            return False
        if p[0] == 'f':
            return True
        if p[0] in ('at', 'k'):
            return p[1][0] in CONSTK and q[1][0] in CONSTK
        return False
    return False


def walk_terms(t, f):
    """Call f on every sub-term (tuples whose head is a str)."""
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            f(x)
            stack.extend(y for y in x if isinstance(y, tuple))


def contains_term(t, pred):
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            if pred(x):
                return True
            stack.extend(y for y in x if isinstance(y, tuple))
    return False


class State:
    __slots__ = ('mem', 'cond', 'ev', 'raii', 'locks', 'taint')

    def __init__(self, mem=None, cond=1, ev=(), raii=(), locks=(), taint=frozenset()):
        self.mem = mem if mem is not None else {}
        self.cond = cond
        self.ev = ev
        self.raii = raii
        self.locks = locks
        self.taint = taint

    def copy(self):
        return State(dict(self.mem), self.cond, self.ev, self.raii, self.locks, self.taint)


class Frame:
    def __init__(self, fn, depth, this=None, caps=None, parent=None, line=0):
        self.fn, self.depth, self.this, self.caps = fn, depth, this, caps or {}
        self.parent, self.line = parent, line
        self.varargs = ()
        self.loopdepth = parent.loopdepth if parent else 0

    @property
    def tu(self):
        return self.fn.tu


def evweight(evs):
    """Numbers used up by events: every call on a path gets its own, also inside and after loops."""
    n = 0
    for x in evs:
        if x[0] == 'loop':
            n += 1 + max([evweight(p[2]) for p in x[3]], default=0)
        elif x[0] in ('call', 'cb'):
            n += 1
    return n


class Engine:
    MAXDEPTH = 40
    UNROLL = 80

    def __init__(self, prog, **opt):
        self.prog = prog
        self.opt = opt
        self.M = Mgr()
        self.intern = {}
        self.groups = dict(opt.get('groups', {}))       # term -> group id
        self.groupdef = dict(opt.get('groupdef', {}))   # group id -> (terms, domain tuple)
        self.cmp_log = []
        self.thrown = []
        self.full_exprs = [[]]
        self.cur = ('?', 0)
        self.notes = []
        self.inlined = {}
        self.modelled = {}
        self.opaque_calls = {}
        self.asserts = []
        self.nullderef = []
        self.reffields = set()
        self.read_hooks = []
        self.write_hooks = []
        self.call_hooks = []
        self.lock_hooks = []
        self.steps = 0
        self.global_cache = {}
        self.sw = {}
        self.qnodes = set()
        self.sizecmp = {}
        self.obs_pred = opt.get('observed', lambda root: root[0] in ('m', 'this', 'g'))
        self.log_mut = opt.get('log_mut', False)
        self.havoc_ptr = opt.get('havoc_ptr', False)
        self.opaque_fn = opt.get('opaque_fn', lambda fn: False)
        self.pure_fn = opt.get('pure_fn', lambda fn: False)
        self.ignore_fn = opt.get('ignore_fn', lambda fn: False)
        self.reverse_unordered = opt.get('reverse_unordered', False)
        self.exact = opt.get('exact', False)     # keep machine arithmetic as it is written (wrap-around and all)
        import models
        self.models = models.REG
        self.mod = models

    merge_limit = 48
    blur = False

    # ------------------------------------------------------------------ terms
    def tid(self, t):
        n = self.intern.get(t)
        if n is None:
            n = len(self.intern)
            self.intern[t] = n
        return n

    def mkgv(self, pairs, limit=None):
        acc = {}
        for g, v in pairs:
            if g == 0:
                continue
            if v[0] == 'gv':
                for g2, v2 in v[1]:
                    gg = self.M.AND(g, g2)
                    if gg:
                        acc[v2] = self.M.OR(acc.get(v2, 0), gg)
            else:
                acc[v] = self.M.OR(acc.get(v, 0), g)
        if not acc:
            return UNDEF
        if len(acc) == 1:
            return next(iter(acc))
        if len(acc) > max(limit or 0, self.merge_limit):
            if self.blur and all(v[0] in ('s', 'cat') or v[:2] == ('app', 'joined') for v in acc):
                return ('app', 'joined', I(len(acc)))     # a text whose content does not matter
            raise NoMerge()
        return ('gv', tuple((g, v) for v, g in sorted(acc.items(), key=lambda kv: self.tid(kv[0]))))

    def alts(self, v):
        return list(v[1]) if v[0] == 'gv' else [(1, v)]

    def gvmap(self, v, f):
        if v[0] == 'gv':
            return self.mkgv([(g, f(x)) for g, x in v[1]], 200)
        return f(v)

    def gvmap2(self, a, b, f):
        if a[0] != 'gv' and b[0] != 'gv':
            return f(a, b)
        out = []
        for ga, xa in self.alts(a):
            for gb, xb in self.alts(b):
                g = self.M.AND(ga, gb)
                if g:
                    out.append((g, f(xa, xb)))
        return self.mkgv(out, 400)

    def mkbool(self, node):
        if node == 1:
            return TRUE
        if node == 0:
            return FALSE
        return self.mkgv([(node, TRUE), (self.M.NOT(node), FALSE)])

    def node(self, v):
        """Truth of a scalar value as a diagram node."""
        k = v[0]
        if k == 'i':
            return 1 if v[1] else 0
        if k == 'gv':
            return self.M.ORs(*[self.M.AND(g, self.node(x)) for g, x in v[1]])
        if k in ('null', 'empty', 'absent'):
            return 0
        if k in ('ptr', 'aptr', 'cptr', 'fn', 'clo', 'bind', 's'):
            return 1
        if k == 'st' and v[1] == 'uptr':
            return self.node(st_fields(v)['p'])
        return self.M.NOT(self.eq(v, NULL if self.is_ptrlike(v) else I(0)))

    def is_ptrlike(self, v):
        return v[0] in ('sym', 'fld', 'res', 'elem', 'app', 'lv', 'mget') and v in self.ptrterms

    ptrterms = frozenset()

    # -------------------------------------------------------------- equality
    def eq(self, a, b):
        M = self.M
        if a == b:
            return 1
        if a[0] == 'gv' or b[0] == 'gv':
            return M.ORs(*[M.ANDs(ga, gb, self.eq(xa, xb)) for ga, xa in self.alts(a) for gb, xb in self.alts(b)
                           if M.AND(ga, gb)])
        if a[0] in CONSTK and b[0] in CONSTK:
            if {a, b} == {NULL, I(0)}:
                return 1
            if a[0] == 'fn' or b[0] == 'fn' or a[0] == b[0] or NULL in (a, b):
                return 0
        if a[0] in CONSTK and b[0] not in CONSTK:
            a, b = b, a
        if b == NULL or b == I(0):
            if a[0] in ('ptr', 'aptr', 'cptr', 'clo', 'bind', 'it'):
                return 0
        if a[0] == 'count' or b[0] == 'count' or a[0] == 'size' or b[0] == 'size' or a[0] == 'add' or b[0] == 'add':
            return self.intcmp('==', a, b)
        if a[0] == 'st' and b[0] == 'st' and a[1] == b[1] and dict(a[2]).keys() == dict(b[2]).keys():
            fa, fb = dict(a[2]), dict(b[2])
            return M.ANDs(*[self.eq(fa[k], fb[k]) for k in fa])
        if a[0] == 'ptr' and b[0] == 'ptr' and distinct(a[1], b[1]):
            return 0
        if a[0] == 'path' and b[0] == 'path':
            return self.eq(a[1], b[1])
        if b[0] == 's' and a[0] == 'cat':
            lits = ''.join(p[1] for p in a[1] if p[0] == 's')
            if len(lits) > len(b[1]):
                return 0
        if b == S('') and filled(a):
            return 0
        if b[0] == 's' and a[0] == 'substr' and a[2] == I(0) and a[3] == I(len(b[1])):
            return self.startswith(a[1], b[1])
        if b[0] == 'i':
            s = self.special_eq(a, b[1])
            if s is not None:
                return s
            g = self.group_node([a, b], lambda m: m[0] == m[1])
            if g is not None:
                return g
            self.cmp_log.append(('==', a, b))
            return M.lit(('val', a), (b,))
        if b[0] in CONSTK:
            return M.lit(('val', a), (b,))
        x, y = sorted((a, b), key=self.tid)
        return M.lit(('eq', x, y), (1,))

    def special_eq(self, a, n):
        """Comparisons of library results with a constant, in a normal form."""
        if a[0] == 'fsq' and a[1] == 'othertype' and n in (0, -1, 1, 2, 3):
            return 0
        if a[0] == 'sfind' and n == 0 and a[2][0] == 's':
            return self.startswith(a[1], a[2][1])
        if a[0] == 'srfind0' and a[2][0] == 's':
            if n == 0:
                return self.startswith(a[1], a[2][1])
        if a[0] == 'scmp' and n == 0:
            # compare(pos, len, lit)
            _, s, pos, ln, lit = a
            if lit[0] == 's' and pos == I(0) and ln == I(len(lit[1])):
                return self.startswith(s, lit[1])
        if a[0] == 'sncmp' and n == 0:
            _, x, y, ln = a
            for p, q in ((x, y), (y, x)):
                if q[0] == 's' and ln[0] == 'i':
                    if ln[1] <= len(q[1]):
                        return self.startswith(p, q[1][:ln[1]])
                    return self.eq(p, q)
        return None

    def startswith(self, s, lit):
        if s[0] == 'gv':
            return self.M.ORs(*[self.M.AND(g, self.startswith(x, lit)) for g, x in s[1]])
        if s[0] == 's':
            return 1 if s[1].startswith(lit) else 0
        if s[0] == 'cat' and s[1][0][0] == 's':
            h = s[1][0][1]
            if len(h) >= len(lit):
                return 1 if h.startswith(lit) else 0
            if not lit.startswith(h):
                return 0
            return self.startswith(cat(*s[1][1:]), lit[len(h):])
        return self.M.ANDs(*[self.M.lit(('val', ('sat', s, I(i))), (I(ord(c)),)) for i, c in enumerate(lit)])

    # -------------------------------------------------------- int comparison
    def lin(self, t):
        if t[0] == 'i':
            return (None, t[1])
        if t[0] == 'add' and t[2][0] == 'i':
            b, c = self.lin(t[1])
            return (b, c + t[2][1])
        return (t, 0)

    def group_node(self, terms, pred):
        gid = None
        idx = []
        gs = [self.groups.get(t) for t in terms if t[0] != 'i']
        if len(gs) == 2 and None not in gs and gs[0] != gs[1]:
            # terms of two groups: related through their tables
            (ta, da), (tb, db) = self.groupdef[gs[0]], self.groupdef[gs[1]]
            ia, ib = ta.index(terms[0]), tb.index(terms[1])
            return self.M.ORs(*[self.M.AND(self.M.lit(('cells', gs[0]), (c,), da),
                                           self.M.lit(('cells', gs[1]), [d for d in db if pred([c[ia], d[ib]])], db))
                                for c in da])
        for t in terms:
            if t[0] == 'i':
                idx.append(('c', t[1]))
                continue
            g = self.groups.get(t)
            if g is None:
                return None
            gid = g
            idx.append(('t', t))
        if gid is None:
            return None
        gterms, dom = self.groupdef[gid]
        pos = {t: i for i, t in enumerate(gterms)}
        keys = []
        for cell in dom:
            vals = [c if k == 'c' else cell[pos[c]] for k, c in idx]
            if pred(vals):
                keys.append(cell)
        if len(keys) == len(dom):
            return 1
        if not keys:
            return 0
        return self.M.lit(('cells', gid), keys, dom)

    def intcmp(self, op, a, b, unsigned=False):
        M = self.M
        if self.exact and a[0] != 'gv' and b[0] != 'gv' and self.exactlike(a) and self.exactlike(b):
            return self.rcmp(op, a, b)
        if a[0] == 'gv' or b[0] == 'gv':
            return M.ORs(*[M.ANDs(ga, gb, self.intcmp(op, xa, xb, unsigned)) for ga, xa in self.alts(a)
                           for gb, xb in self.alts(b) if M.AND(ga, gb)])
        if op == '!=':
            return M.NOT(self.intcmp('==', a, b, unsigned))
        if op == '==' and a[0] in ('i', 'null') and b[0] not in ('i', 'null'):
            a, b = b, a
        if op == '>':
            return self.intcmp('<', b, a, unsigned)
        if op == '>=':
            return M.NOT(self.intcmp('<', a, b, unsigned))
        if op == '<=':
            return M.NOT(self.intcmp('<', b, a, unsigned))
        if a == NULL:
            a = I(0)
        if b == NULL:
            b = I(0)
        ba, ca = self.lin(a)
        bb, cb = self.lin(b)
        if ba == bb:
            return 1 if (ca == cb if op == '==' else ca < cb) else 0
        # counts and sizes
        for x, y, flip in ((ba, bb, False), (bb, ba, True)):
            c = (cb - ca) if not flip else (ca - cb)   # x op c   (y none)
            if y is None and x is not None and x[0] in ('count', 'size', 'slen') and (op == '==' or True):
                ne = self.nonempty(x)
                if op == '==':
                    if c == 0:
                        return M.NOT(ne)
                    if c < 0:
                        return 0
                else:
                    if not flip:      # x < c
                        if c <= 0:
                            return 0
                        if c == 1:
                            return M.NOT(ne)
                    else:             # c < x
                        if c < 0:
                            return 1
                        if c == 0:
                            return ne
        if ba and bb and ca == cb:
            for x, y, flip in ((ba, bb, False), (bb, ba, True)):
                if x[0] == 'count' and y == self.size_of(x[1]):
                    allp = M.NOT(self.any_node(x[1], M.NOT(x[2])))
                    if op == '==':
                        return allp
                    # x < y  <=> not all ; y < x <=> false
                    return M.NOT(allp) if not flip else 0
        if bb is None and ba is not None and op == '==' and a[0] != 'add':
            s = self.special_eq(ba, cb)
            if s is not None:
                return s
        if unsigned:
            if op == '<' and ba is None and ca == 0 and cb == 0:
                return M.NOT(self.intcmp('==', b, I(0), True))
            if op == '<' and bb is None and ca == 0:
                if cb <= 0:
                    return 0
                if cb == 1:
                    return self.intcmp('==', a, I(0), True)
        ta = ba if ba is not None else I(ca)
        tb = bb if bb is not None else I(cb)
        if ca == 0 or ba is None:
            if cb == 0 or bb is None:
                g = self.group_node([ta, tb], (lambda m: m[0] == m[1]) if op == '==' else (lambda m: m[0] < m[1]))
                if g is not None:
                    return g
        self.cmp_log.append((op, a, b))
        if op == '==' and bb is None and ca == 0:
            return M.lit(('val', ta), (I(cb),))
        if op == '==' and ba is None and cb == 0:
            return M.lit(('val', tb), (I(ca),))
        # three-valued comparison variable on the normalised pair
        if ba is None:
            # c < b + cb
            x, y, d, sw = tb, None, ca - cb, True
        elif bb is None:
            x, y, d, sw = ta, None, cb - ca, False
        else:
            if self.tid(ta) <= self.tid(tb):
                x, y, d, sw = ta, tb, cb - ca, False
            else:
                x, y, d, sw = tb, ta, ca - cb, True
        atom = ('cmp', x, y if y is not None else I(0), d)
        dom = ('<', '=', '>')
        if op == '==':
            return M.lit(atom, ('=',), dom)
        return M.lit(atom, ('>',) if sw else ('<',), dom)

    @staticmethod
    def exactlike(t):
        return t[0] in ('i', 'w', 'c', 'fld', 'sym', 'deref', 'elem', 'trunc', 'flt')

    def rcmp(self, op, a, b):
        M = self.M
        if a[0] == 'i' and b[0] == 'i':
            x, y = a[1], b[1]
            return 1 if {'==': x == y, '!=': x != y, '<': x < y, '>': x > y, '<=': x <= y, '>=': x >= y}[op] else 0
        if a == b:
            return 1 if op in ('==', '<=', '>=') else 0
        keys = {'==': '=', '!=': '<>', '<': '<', '>': '>', '<=': '<=', '>=': '=>'}[op]
        if self.tid(a) > self.tid(b):
            a, b = b, a
            keys = keys.translate(str.maketrans('<>', '><'))
        return M.lit(('rcmp', a, b), tuple(keys), ('<', '=', '>'))

    def nonempty(self, x):
        if x[0] == 'count':
            return self.any_node(x[1], x[2])
        if x[0] == 'size':
            return self.any_node(x[1], 1)
        return self.M.NOT(self.eq(x[1], S('')))

    def any_node(self, V, P):
        """Some element of V satisfies P (P: node over ('elem', V, ('bq', n)))."""
        if P == 0:
            return 0
        if V[0] == 'rev':
            V = V[1]
        if V[0] == 'gv':
            return self.M.ORs(*[self.M.AND(g, self.any_node(x, P)) for g, x in V[1]])
        if V[0] == 'vec' and not V[1]:
            return 0
        if V[0] == 'range' and P == 1:
            return self.M.NOT(self.intcmp('==', V[1], I(0), True))
        if V[0] == 'vec' and P == 1:
            return 1
        if V[0] == 'vpush' and P == 1:
            return 1
        return self.M.lit(('any', V, P), (1,))

    def size_of(self, V):
        if V[0] == 'gv':
            return self.gvmap(V, self.size_of)
        if V[0] == 'vec':
            return I(len(V[1]))
        if V[0] == 'vpush':
            return self.arith('+', self.size_of(V[1]), I(1))
        if V[0] == 'vupd':
            return self.size_of(V[1])
        if V[0] == 'range':
            return V[1]
        if V[0] == 'rev':
            return self.size_of(V[1])
        if V[0] == 'map':
            if V[1] == EMPTY and all(x[0] != 'gv' for _, x in V[2]) and all(k[0] in CONSTK for k, _ in V[2]):
                return I(sum(1 for _, x in V[2] if x != ABSENT))
        return ('size', V)

    # ---------------------------------------------------------- substitution
    def subst(self, t, f, memo=None):
        """Rebuild a term with f(sub-term) -> replacement or None."""
        if memo is None:
            memo = {}
        if not isinstance(t, tuple) or not t:
            return t
        r = memo.get(t)
        if r is not None:
            return r
        r = f(t)
        if r is None:
            g = lambda x: self.subst(x, f, memo)
            n = lambda x: self.substnode(x, f, memo)
            k = t[0]
            if k == 'gv':
                r = self.mkgv([(n(c), g(v)) for c, v in t[1]], 400)
            elif k in ('i', 's', 'sym', 'fn', 'flt'):
                r = t
            elif k == 'fld' and len(t) == 3:
                r = self.sel_f(g(t[1]), t[2])
            elif k == 'elem':
                r = self.elem(g(t[1]), g(t[2]))
            elif k == 'mget':
                r = self.map_get(g(t[1]), g(t[2]))
            elif k == 'size':
                r = self.size_of(g(t[1]))
            elif k == 'count':
                r = self.count_of(g(t[1]), n(t[2]))
            elif k in ('fi', 'cntb'):
                r = (k, g(t[1]), n(t[2]))
            elif k == 'add':
                r = self.arith('+', g(t[1]), g(t[2]))
            elif k == 'op' and len(t) == 4 and t[1] in ('+', '-', '*', '/', '%', '&', '|', '^'):
                r = self.arith(t[1], g(t[2]), g(t[3]))
            elif k == 'cat':
                r = cat(*[g(x) for x in t[1]])
            elif k == 'map':
                r = ('map', g(t[1]), ())
                for kk, v in t[2]:
                    r = self.map_set(r, g(kk), g(v))
            else:
                r = tuple(g(x) if isinstance(x, tuple) else x for x in t)
        memo[t] = r
        return r

    def substnode(self, node, f, memo=None):
        if node < 2:
            return node
        if memo is None:
            memo = {}
        key = ('@node', node)
        r = memo.get(key)
        if r is not None:
            return r
        M = self.M
        g = lambda x: self.subst(x, f, memo)

        def fun(atom, k):
            kind = atom[0]
            if kind == 'val':
                a = g(atom[1])
                return None if a == atom[1] else self.eq(a, k)
            if kind == 'eq':
                a, b = g(atom[1]), g(atom[2])
                return None if (a, b) == (atom[1], atom[2]) else self.eq(a, b)
            if kind == 'any':
                V, P = g(atom[1]), self.substnode(atom[2], f, memo)
                return None if (V, P) == (atom[1], atom[2]) else self.any_node(V, P)
            if kind == 'has':
                m, kk = g(atom[1]), g(atom[2])
                return None if (m, kk) == (atom[1], atom[2]) else self.map_has(m, kk)
            if kind == 'cmp':
                a, b = g(atom[1]), g(atom[2])
                if (a, b) == (atom[1], atom[2]):
                    return None
                b = self.arith('+', b, I(atom[3]))
                if k == '=':
                    return self.intcmp('==', a, b)
                return self.intcmp('<', a, b) if k == '<' else self.intcmp('<', b, a)
            if kind == 'cells':
                terms, dom = self.groupdef[atom[1]]
                nt = tuple(g(x) for x in terms)
                if nt == tuple(terms):
                    return None
                gids = {self.groups.get(x) for x in nt}
                if len(gids) == 1 and None not in gids:
                    gid = gids.pop()
                    t2, d2 = self.groupdef[gid]
                    pos = [t2.index(x) for x in nt]
                    keys = [c for c in d2 if tuple(c[p] for p in pos) == k]
                    if keys:
                        return M.lit(('cells', gid), keys, d2)
                if gids == {None} and len(set(nt)) == len(nt) and all(x[0] not in CONSTK and x[0] != 'gv' for x in nt):
                    gid = ('sub', atom[1], nt)
                    for x in nt:
                        self.groups[x] = gid
                    self.groupdef[gid] = (nt, dom)
                    return M.lit(('cells', gid), (k,), dom)
                return M.lit(('cellsx', atom[1], nt), (k,), dom)
            na = tuple(g(x) if isinstance(x, tuple) else x for x in atom)
            if na == atom:
                return None
            if kind == 'ftype' or kind in ('open', 'rdtok', 'rdline'):
                return M.lit(na, (k,), M.dom[M.level[atom]])
            return M.lit(na, (k,), M.dom[M.level[atom]])

        r = M.rebuild(node, fun)
        memo[key] = r
        return r

    def free(self, t, term):
        """Does term occur in t, looking through guards and quantified diagrams?"""
        seen = set()
        stack = [t]
        nodes = []
        while stack or nodes:
            if nodes:
                n = nodes.pop()
                if ('n', n) in seen or n < 2:
                    continue
                seen.add(('n', n))
                for a in self.M.support(n):
                    if a[0] == 'any':
                        stack.append(a[1])
                        nodes.append(a[2])
                    elif a[0] == 'cells':
                        stack.extend(self.groupdef[a[1]][0])
                    else:
                        stack.extend(y for y in a if isinstance(y, tuple))
                continue
            x = stack.pop()
            if x == term:
                return True
            if not isinstance(x, tuple) or x in seen:
                continue
            seen.add(x)
            if x and x[0] == 'gv':
                for c, v in x[1]:
                    nodes.append(c)
                    stack.append(v)
            elif x and x[0] in ('count', 'fi', 'cntb') and len(x) == 3:
                stack.append(x[1])
                nodes.append(x[2])
            else:
                stack.extend(y for y in x if isinstance(y, tuple))
        return False

    def free_node(self, n, term):
        return self.free(('gv', ((n, I(0)),)), term)

    def max_bq(self, t):
        best = [-1]
        seen = set()

        def go(x):
            if isinstance(x, int):
                if ('n', x) in seen or x < 2:
                    return
                seen.add(('n', x))
                for a in self.M.support(x):
                    if a[0] == 'any':
                        go(a[1])
                        go(a[2])
                    elif a[0] == 'cells':
                        for y in self.groupdef[a[1]][0]:
                            go(y)
                    else:
                        for y in a:
                            if isinstance(y, tuple):
                                go(y)
                return
            if not x or x in seen:
                return
            seen.add(x)
            if x[0] == 'bq':
                best[0] = max(best[0], x[1])
            elif x[0] == 'gv':
                for c, v in x[1]:
                    go(c)
                    go(v)
            elif x[0] in ('count', 'fi', 'cntb') and len(x) == 3:
                go(x[1])
                go(x[2])
            else:
                for y in x:
                    if isinstance(y, tuple):
                        go(y)
        go(t)
        return best[0]

    def bind_node(self, P, bv):
        """Close a predicate over a loop position: bv -> canonical bound name."""
        n = self.max_bq(P) + 1
        return self.substnode(P, lambda t: ('bq', n) if t == bv else None)

    def bind_term(self, T, bv):
        n = self.max_bq(T) + 1
        return self.subst(T, lambda t: ('bq', n) if t == bv else None)

    def open_node(self, P, pos):
        """Instantiate a closed predicate at a position."""
        n = self.max_bq(P)
        return self.substnode(P, lambda t: pos if t == ('bq', n) else None)

    def count_of(self, V, P):
        if P == 0:
            return I(0)
        if P == 1:
            return self.size_of(V)
        if V[0] == 'gv':
            return self.mkgv([(g, self.count_of(x, P)) for g, x in V[1]], 200)
        if V[0] == 'vec' and not V[1]:
            return I(0)
        return ('count', V, P)

    def bind_quant(self, P, bv):
        """Close a predicate over the position bv; unchanged if it does not occur."""
        if P < 2 or not self.free_node(P, bv):
            return P
        r = self.bind_node(P, bv)
        self.qnodes.add(r)
        self.qnodes.add(self.M.NOT(r))
        return r

    def any_q(self, V, P):
        if P < 2 or P in self.qnodes:
            return self.any_node(V, P)
        return self.M.AND(P, self.any_node(V, 1))

    def count_q(self, V, P):
        if V[0] == 'rev':
            V = V[1]
        if P < 2 or P in self.qnodes:
            return self.count_of(V, P)
        return self.mkgv([(P, self.size_of(V)), (self.M.NOT(P), I(0))])

    def first(self, V, P):
        if P < 2 or P not in self.qnodes:
            return I(0)
        return ('fi', V, P)

    # ------------------------------------------------------------ arithmetic
    def arith(self, op, a, b, ty=None):
        if a[0] == 'gv' or b[0] == 'gv':
            return self.gvmap2(a, b, lambda x, y: self.arith(op, x, y, ty))
        if a[0] == 'i' and b[0] == 'i':
            x, y = a[1], b[1]
            try:
                r = {'+': lambda: x + y, '-': lambda: x - y, '*': lambda: x * y,
                     '/': lambda: int(x / y) if abs(x) < 2**50 and abs(y) < 2**50 else (abs(x) // abs(y)) * (1 if (x < 0) == (y < 0) else -1),
                     '%': lambda: x - y * (abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)),
                     '&': lambda: x & y, '|': lambda: x | y, '^': lambda: x ^ y,
                     '<<': lambda: x << y, '>>': lambda: x >> y}[op]()
            except ZeroDivisionError:
                return ('op', op, a, b)
            return I(self.wrap(r, ty))
        if self.exact and not (op in '+-' and (counter(a) and b[0] == 'i' or op == '+' and counter(b) and a[0] == 'i')):
            return ('w', op, ty.d.get('bits', 64) if ty is not None else 64, bool(ty is not None and ty.d.get('u')), a, b)
        if op == '+':
            if a[0] == 'i':
                a, b = b, a
            if b[0] == 'i':
                if b[1] == 0:
                    return a
                base, c = self.lin(a)
                c += b[1]
                return base if c == 0 else ('add', base, I(c))
            x, y = sorted((a, b), key=self.tid)
            return ('op', '+', x, y)
        if op == '-':
            if b[0] == 'i':
                return self.arith('+', a, I(-b[1]))
            ba, ca = self.lin(a)
            bb, cb = self.lin(b)
            if ba == bb:
                return I(ca - cb)
            return ('op', '-', a, b)
        if op in ('*', '&', '|', '^'):
            x, y = sorted((a, b), key=self.tid)
            if op == '*' and I(1) in (a, b):
                return a if b == I(1) else b
            return ('op', op, x, y)
        return ('op', op, a, b)

    @staticmethod
    def wrap(n, ty):
        if ty is None:
            return n
        d = ty.d
        if ty.k == 'bool':
            return 1 if n else 0
        bits = d.get('bits')
        if not bits:
            return n
        n &= (1 << bits) - 1
        if not d.get('u') and n >> (bits - 1):
            n -= 1 << bits
        return n

    # -------------------------------------------------------- value selection
    def sel(self, v, p):
        k = v[0]
        if k == 'gv':
            return self.mkgv([(g, self.sel(x, p)) for g, x in v[1]], 200)
        if p[0] == 'f':
            return self.sel_f(v, p[1])
        if p[0] == 'at':
            return self.elem(v, p[1])
        if p[0] == 'k':
            return self.map_entry(v, p[1])
        if p[0] == 'ch':
            return self.gvmap(p[1], lambda i: self.strat(v, i))
        raise Unsupported('selector %r' % (p,))

    def sel_f(self, v, f):
        k = v[0]
        if k == 'st':
            d = dict(v[2])
            if f in d:
                return d[f]
            return ('fld', v, f) if v[1].startswith('?') else UNDEF
        if k == 'upd':
            d = dict(v[2])
            return d[f] if f in d else self.sel_f(v[1], f)
        if k in ('undef', 'moved'):
            return UNDEF
        if k == 'gv':
            return self.mkgv([(g, self.sel_f(x, f)) for g, x in v[1]], 200)
        if k == 'gidkey' and f == 'data':
            return v[1]
        return ('fld', v, f)

    def elem(self, V, pos):
        if V[0] == 'gv':
            return self.mkgv([(g, self.elem(x, pos)) for g, x in V[1]], 200)
        if pos[0] == 'gv':
            return self.mkgv([(g, self.elem(V, x)) for g, x in pos[1]], 200)
        if V[0] == 's' and pos[0] == 'i' and 0 <= pos[1] < len(V[1]):
            return self.strat(V, pos)
        if V[0] == 'vec':
            if pos[0] == 'i' and 0 <= pos[1] < len(V[1]):
                return V[1][pos[1]]
            if pos == ('last',) and V[1]:
                return V[1][-1]
        if V[0] == 'vfill' and (pos[0] != 'i' or V[2] != UNDEF):
            return V[2]
        if V[0] == 'vpush' and (pos == ('last',) or pos == ('size', V[1])):
            return V[2]
        if V[0] == 'vupd':
            if V[2] == pos:
                return V[3]
            if V[2][0] == 'i' and pos[0] == 'i':
                return self.elem(V[1], pos)
        if V[0] in ('undef', 'moved'):
            return UNDEF
        if V[0] == 'map' and pos[0] == 'i':
            ks = self.mod.literal_keys(self, V)
            if ks is not None and 0 <= pos[1] < len(ks):
                return self.map_entry(V, ks[pos[1]])
        return ('elem', V, pos)

    def upd(self, v, path, x):
        if not path:
            return x
        p, rest = path[0], path[1:]
        if v[0] == 'gv':
            return self.mkgv([(g, self.upd(y, path, x)) for g, y in v[1]], 200)
        new = self.upd(self.sel(v, p), rest, x) if rest else x
        if p[0] == 'f':
            f = p[1]
            if v[0] == 'st':
                d = dict(v[2])
                d[f] = new
                return ('st', v[1], tuple(sorted(d.items())))
            if v[0] == 'upd':
                d = dict(v[2])
                d[f] = new
                return ('upd', v[1], tuple(sorted(d.items())))
            if v[0] in ('undef', 'moved'):
                return ('st', '?', ((f, new),))
            if new == ('fld', v, f):
                return v
            return ('upd', v, ((f, new),))
        if p[0] == 'at' and v[0] != 's':
            pos = p[1]
            if v[0] == 'vec':
                if pos[0] == 'i' and 0 <= pos[1] < len(v[1]):
                    l = list(v[1])
                    l[pos[1]] = new
                    return ('vec', tuple(l))
                if pos == ('last',) and v[1]:
                    return ('vec', v[1][:-1] + (new,))
            if v[0] == 'vpush' and (pos == ('last',) or pos == ('size', v[1])):
                return ('vpush', v[1], new)
            if v[0] == 'vupd' and v[2] == pos:
                return ('vupd', v[1], pos, new)
            if new == ('elem', v, pos):
                return v
            return ('vupd', v, pos, new)
        if p[0] == 'k':
            return self.map_set(v, p[1], self.sel_f(new, 'second'))
        if p[0] == 'ch' or p[0] == 'at' and v[0] == 's':
            i = len(v[1]) - 1 if v[0] == 's' and p[1] == ('lastch',) else p[1][1] if p[1][0] == 'i' else None
            if v[0] == 's' and i is not None and new[0] == 'i' and 0 <= i < len(v[1]):
                return ('s', v[1][:i] + chr(new[1] & 255) + v[1][i + 1:])
            return ('smut', '[]', v, p[1], new)
        raise Unsupported('update through %r' % (p,))

    # ------------------------------------------------------------------ maps
    def as_map(self, v):
        return v if v[0] == 'map' else ('map', v, ())

    def map_has(self, m, k):
        M = self.M
        if m[0] == 'gv':
            return M.ORs(*[M.AND(g, self.map_has(x, k)) for g, x in m[1]])
        if k[0] == 'gv':
            return M.ORs(*[M.AND(g, self.map_has(m, x)) for g, x in k[1]])
        if m == EMPTY or m == ABSENT:
            return 0
        if m[0] != 'map':
            return M.lit(('has', m, k), (1,))
        return self._map_has(m, k)

    def _present(self, v):
        if v == ABSENT:
            return 0
        if v[0] == 'gv':
            return self.M.ORs(*[g for g, x in v[1] if x != ABSENT])
        return 1

    def _map_has(self, m, k):
        M = self.M
        for k2, v in m[2]:
            if k2 == k:
                return self._present(v)
        r = self.map_has(m[1], k)
        for k2, v in m[2]:
            if k2[0] in CONSTK and k[0] in CONSTK:
                continue
            e = self.eq(k, k2)
            r = M.ITE(e, self._present(v), r)
        return r

    def map_get(self, m, k):
        if m[0] == 'gv':
            return self.mkgv([(g, self.map_get(x, k)) for g, x in m[1]], 200)
        if k[0] == 'gv':
            return self.mkgv([(g, self.map_get(m, x)) for g, x in k[1]], 200)
        if m == EMPTY:
            return ABSENT
        if m[0] != 'map':
            return ('mget', m, k)
        for k2, v in m[2]:
            if k2 == k:
                if v[0] == 'gv':
                    ps = [(g, x) for g, x in v[1] if x != ABSENT]
                    return self.mkgv(ps) if ps else ABSENT
                return v
        r = self.map_get(m[1], k)
        for k2, v in m[2]:
            if k2[0] in CONSTK and k[0] in CONSTK:
                continue
            e = self.eq(k, k2)
            if e:
                r = self.mkgv([(e, v), (self.M.NOT(e), r)])
        return r

    def map_entry(self, m, k):
        return st_('pair', first=k, second=self.map_get(m, k))

    def map_set(self, m, k, v):
        if m[0] == 'gv':
            return self.mkgv([(g, self.map_set(x, k, v)) for g, x in m[1]], 200)
        if k[0] == 'gv':
            return self.mkgv([(g, self.map_set(m, x, v)) for g, x in k[1]], 200)
        m = self.as_map(m)
        d = dict(m[2])
        d[k] = v
        return ('map', m[1], tuple(sorted(d.items(), key=lambda kv: self.tid(kv[0]))))

    def map_default(self, base, k):
        """Entry for a key a map value says nothing about: value or ABSENT."""
        h = self.map_has(base, k)
        if h == 0:
            return ABSENT
        return self.mkgv([(h, self.map_get(base, k)), (self.M.NOT(h), ABSENT)])

    # ---------------------------------------------------------------- memory
    def initial(self, root):
        if root[0] == 'm':
            return root[1] if root[1][0] != 'sym' else ('deref', root[1])
        if root[0] == 'this':
            return ('sym', 'this')
        if root[0] == 'strlit':
            return root[1]
        if root[0] == 'g':
            return self.global_cache.get((root[1], root[2]), UNDEF)
        if root[0] == 'glob':
            return ('glob', root[1])
        return UNDEF

    def rawread(self, st, root):
        v = st.mem.get(root)
        return self.initial(root) if v is None else v

    def prune(self, v, cond):
        if v[0] != 'gv' or cond == 1:
            return v
        ps = []
        for g, x in v[1]:
            if self.M.AND(g, cond):
                ps.append((g, x))
        if len(ps) == len(v[1]):
            return v
        if not ps:
            return UNDEF
        if len(ps) == 1:
            return ps[0][1]
        return ('gv', tuple(ps))

    def read(self, st, loc):
        root, path = loc
        for h in self.read_hooks:
            h(self, st, loc)
        v = self.rawread(st, root)
        v = self.prune(v, st.cond)
        for p in path:
            v = self.prune(self.sel(v, p), st.cond)
        return v

    def peek(self, st, loc):
        root, path = loc
        v = self.rawread(st, root)
        for p in path:
            v = self.sel(v, p)
        return v

    def write(self, st, loc, val, quiet=False, log=True):
        """In-place write on st (callers own st)."""
        root, path = loc
        if not quiet:
            for h in self.write_hooks:
                h(self, st, loc, val)
        if self.log_mut and log and not quiet and self.obs_pred(root):
            st.ev = st.ev + (('mut', loc, val, self.cur),)
        st.mem[root] = self.upd(self.rawread(st, root), path, val)

    def assume(self, st, node):
        """State restricted to node, or None."""
        c = self.M.AND(st.cond, node)
        if c == 0:
            return None
        if c == st.cond:
            return st
        s = st.copy()
        s.cond = c
        return s

    def event(self, st, *ev):
        st.ev = st.ev + (ev + (self.cur,),)

    # --------------------------------------------------------------- merging
    def merge(self, items):
        """items: [(state, value or None)] -> merged list."""
        if len(items) < 2:
            return items
        groups = {}
        order = []
        for s, v in items:
            key = (s.ev, s.raii, s.locks)
            if key not in groups:
                groups[key] = []
                order.append(key)
            groups[key].append((s, v))
        out = []
        for key in order:
            acc = []
            for s, v in groups[key]:
                done = False
                for i, (s0, v0) in enumerate(acc):
                    r = self.merge2(s0, v0, s, v)
                    if r is not None:
                        acc[i] = r
                        done = True
                        break
                if not done:
                    acc.append((s, v))
            out.extend(acc)
        return out

    def merge2(self, a, va, b, vb):
        M = self.M
        if (va is None) != (vb is None):
            return None
        same = va == vb
        diff, keep = [], {}
        for r in set(a.mem) | set(b.mem):
            x, y = a.mem.get(r), b.mem.get(r)
            if x == y:
                continue
            if r[0] in ('sv', 'h') and (x is None or y is None):
                keep[r] = x if y is None else y
                continue
            if r[0] in ('v', 't', 'c', 'x', 'm', 'this', 'glob', 'g'):
                if x is None or y is None:
                    if r[0] in ('m', 'this', 'glob', 'g'):
                        x = self.initial(r) if x is None else x
                        y = self.initial(r) if y is None else y
                        if x == y:
                            continue
                    else:
                        diff.append((r, None, None))
                        continue
            diff.append((r, x, y))
        c = M.OR(a.cond, b.cond)
        if M.AND(a.cond, b.cond) != 0 and (diff or not same):
            real = [d for d in diff if d[1] is not None]
            if real or not same:
                return None
        ga, gb = M.constrain(a.cond, c), M.constrain(b.cond, c)
        mem = dict(a.mem)
        mem.update(keep)
        try:
            for r, x, y in diff:
                if x is None:
                    mem.pop(r, None)
                    continue
                mem[r] = self.mergeval(ga, x, gb, y)
            v = va if same else self.mergeval(ga, va, gb, vb)
        except NoMerge:
            return None
        return (State(mem, c, a.ev, a.raii, a.locks, a.taint | b.taint), v)

    def mergeval(self, ga, x, gb, y):
        if x == y:
            return x
        kx, ky = x[0], y[0]
        if kx == 'ref' or ky == 'ref':
            raise NoMerge()
        if kx == 'st' and ky == 'st' and x[1] == y[1]:
            fx, fy = dict(x[2]), dict(y[2])
            if fx.keys() == fy.keys():
                return ('st', x[1], tuple(sorted((k, self.mergeval(ga, fx[k], gb, fy[k])) for k in fx)))
        if kx == 'vec' and ky == 'vec' and len(x[1]) == len(y[1]):
            return ('vec', tuple(self.mergeval(ga, p, gb, q) for p, q in zip(x[1], y[1])))
        if (kx == 'map' or ky == 'map') and kx != 'gv' and ky != 'gv':
            mx, my = self.as_map(x), self.as_map(y)
            if mx[1] == my[1]:
                dx, dy = dict(mx[2]), dict(my[2])
                ent = {}
                for k in set(dx) | set(dy):
                    p = dx[k] if k in dx else self.map_default(mx[1], k)
                    q = dy[k] if k in dy else self.map_default(my[1], k)
                    ent[k] = self.mergeval(ga, p, gb, q)
                return ('map', mx[1], tuple(sorted(ent.items(), key=lambda kv: self.tid(kv[0]))))
        if 'upd' in (kx, ky):
            bx = x[1] if kx == 'upd' else x
            by = y[1] if ky == 'upd' else y
            if bx == by and bx[0] != 'gv':
                dx = dict(x[2]) if kx == 'upd' else {}
                dy = dict(y[2]) if ky == 'upd' else {}
                ent = {}
                for k in set(dx) | set(dy):
                    p = dx.get(k, self.sel_f(bx, k))
                    q = dy.get(k, self.sel_f(bx, k))
                    ent[k] = self.mergeval(ga, p, gb, q)
                return ('upd', bx, tuple(sorted(ent.items())))
        return self.mkgv([(ga, x), (gb, y)])

    def merge_outs(self, outs):
        by = {}
        order = []
        for k, s, v in outs:
            key = k if k[0] != 'g' else k
            if key not in by:
                by[key] = []
                order.append(key)
            by[key].append((s, v))
        res = []
        for key in order:
            for s, v in self.merge(by[key]):
                res.append((key, s, v))
        return res

    # ----------------------------------------------------------- expressions
    LV = ('ref', 'mem', 'pmem', 'idx', 'tmp', 'str', 'asg')

    def is_lv(self, e):
        k = e['k']
        if k in ('ref', 'idx', 'str', 'tmp'):
            return True
        if k in ('mem', 'pmem'):
            return True
        if k == 'un':
            return e['op'] in ('*', '++', '--')
        if k == 'asg':
            return True
        if k in ('call', 'icall', 'cond', 'cast'):
            return bool(e.get('lv'))
        if k == 'bin':
            return e['op'] == ',' and self.is_lv(e['b'])
        return False

    def setcur(self, e, fr):
        l = e.get('l')
        if l:
            self.cur = (fr.tu.files[fr.fn.body['file']] if fr.fn.body else '?', l)

    def ev(self, e, st, fr):
        """Evaluate to values: [(state, value)]."""
        self.steps += 1
        if self.steps > self.opt.get('max_steps', 3000000):
            raise Unsupported('step budget exhausted')
        k = e['k']
        self.setcur(e, fr)
        m = getattr(self, 'ev_' + k, None)
        if m is not None:
            return m(e, st, fr)
        if self.is_lv(e):
            out = []
            for s, loc in self.lv(e, st, fr):
                out.append((s, self.read(s, loc)))
            return out
        raise Unsupported('expression %s at %s' % (k, self.cur))

    def ev_int(self, e, st, fr):
        return [(st, I(e['v']))]

    def ev_flt(self, e, st, fr):
        return [(st, ('flt', e['v']))]

    def ev_null(self, e, st, fr):
        return [(st, NULL)]

    def ev_str(self, e, st, fr):
        return [(st, S(e['v']))]

    def ev_zero(self, e, st, fr):
        return [(st, self.zero_value(fr.tu.type(e['t'])))]

    def ev_this(self, e, st, fr):
        f = fr
        if f.this is None:
            raise Unsupported('this outside method at %s' % (self.cur,))
        return [(st, ('ptr', f.this))]

    def ev_fn(self, e, st, fr):
        fn = fr.tu.fns[e['f']]
        return [(st, ('fn', fn.tu.name, fn.id))]

    def ev_l2r(self, e, st, fr):
        ty = fr.tu.type(e['t']) if 't' in e else None
        out = []
        for s, loc in self.lvs(e['e'], st, fr):
            v = self.read(s, loc)
            out.append((s, self.typed(v, ty)))
        return out

    def typed(self, v, ty):
        """Give opaque booleans their diagram form."""
        if ty is not None and ty.k == 'bool' and v[0] not in ('i', 'gv', 'undef'):
            return self.mkbool(self.node(v))
        return v

    def ev_decay(self, e, st, fr):
        if e['e']['k'] == 'str':
            return [(st, ('cptr', S(e['e']['v'])))]
        out = []
        for s, loc in self.lvs(e['e'], st, fr):
            if loc[0][0] == 'strlit':
                out.append((s, ('cptr', loc[0][1])))
                continue
            v = self.peek(s, loc)
            if v[0] == 's':
                out.append((s, ('cptr', v)))
            else:
                out.append((s, ('aptr', loc, I(0))))
        return out

    def ev_void(self, e, st, fr):
        return [(s, UNDEF) for s, _ in self.ev_any(e['e'], st, fr)]

    def ev_any(self, e, st, fr):
        """Evaluate for effects; value ignored (no read of plain lvalues)."""
        if self.is_lv(e) and e['k'] not in ('call', 'icall', 'asg', 'un'):
            if e['k'] in ('ref',):
                return [(st, UNDEF)]
        if self.is_lv(e):
            return [(s, UNDEF) for s, _ in self.lv(e, st, fr)]
        return self.ev(e, st, fr)

    def ev_tobool(self, e, st, fr):
        return [(s, self.mkbool(self.node(v))) for s, v in self.ev(e['e'], st, fr)]

    def ev_cast(self, e, st, fr):
        ck = e['ck']
        ty = fr.tu.type(e['t'])
        if e.get('lv'):
            return [(s, self.read(s, loc)) for s, loc in self.lv(e, st, fr)]
        out = []
        for s, v in self.ev(e['e'], st, fr):
            if ck in ('IntegralCast',):
                src = fr.tu.type(e.get('ft'))
                out.append((s, self.gvmap(v, lambda x: self.castint(x, ty, src))))
            elif ck in ('BitCast', 'DerivedToBase', 'UncheckedDerivedToBase', 'Dynamic', 'BaseToDerived',
                        'PointerToIntegral', 'IntegralToPointer', 'ToUnion'):
                out.append((s, v))
            elif ck in ('IntegralToFloating', 'FloatingToIntegral', 'FloatingCast', 'FloatingToBoolean'):
                if self.exact and ty.k in ('int', 'float'):
                    kind = ('f%s' % ty.d.get('bits')) if ty.k == 'float' else ty.d.get('bits', 64)
                    out.append((s, self.gvmap(v, lambda x: ('c', kind, bool(ty.d.get('u')), x))))
                else:
                    out.append((s, ('op', ck, v)))
            else:
                raise Unsupported('cast %s at %s' % (ck, self.cur))
        return out

    def castint(self, x, ty, src):
        if x[0] == 'i':
            return I(self.wrap(x[1], ty))
        if src is not None and ty is not None:
            sb, db = src.d.get('bits', 64), ty.d.get('bits', 64)
            if src.k == 'bool':
                return x
            if self.exact and (db < sb or bool(src.d.get('u')) != bool(ty.d.get('u'))) and src.k != 'enum':
                if not (src.d.get('u') and db > sb):
                    return ('c', db, bool(ty.d.get('u')), x)
            if db < sb and not (x[0] in ('fld', 'sym') and src.k == 'enum'):
                return ('trunc', I(db), x)
        return x

    def ev_un(self, e, st, fr):
        op = e['op']
        ty = fr.tu.type(e['t'])
        if op == '!':
            return [(s, self.mkbool(self.M.NOT(self.node(v)))) for s, v in self.ev(e['e'], st, fr)]
        if op == '&':
            if e['e']['k'] == 'fn':
                return self.ev(e['e'], st, fr)
            return [(s, ('ptr', loc)) for s, loc in self.lvs(e['e'], st, fr)]
        if op == '*':
            return [(s, self.read(s, loc)) for s, loc in self.lv(e, st, fr)]
        if op in ('-', '~'):
            out = []
            for s, v in self.ev(e['e'], st, fr):
                if op == '-':
                    out.append((s, self.arith('-', I(0), v, ty)))
                else:
                    out.append((s, self.gvmap(v, lambda x: I(self.wrap(~x[1], ty)) if x[0] == 'i' else
                                                self.arith('^', x, I(-1), ty) if self.exact else ('op', '~', x))))
            return out
        if op in ('++', '--', 'p++', 'p--'):
            out = []
            for s, loc in self.lvs(e['e'], st, fr):
                old = self.read(s, loc)
                new = self.bump(old, 1 if '+' in op else -1, ty)
                s = s.copy()
                self.write(s, loc, new)
                out.append((s, old if op[0] == 'p' else new))
            return out
        raise Unsupported('unary %s at %s' % (op, self.cur))

    def bump(self, v, n, ty):
        def f(x):
            if x[0] == 'aptr':
                return ('aptr', x[1], self.arith('+', x[2], I(n)))
            if x[0] == 'it':
                return self.it_add(x, I(n))
            if x[0] == 'cptr':
                return ('cptr', ('substr', x[1], I(n), ('npos',)))
            if x[0] == 'ptr':
                return ('aptr', x[1], I(n))
            if ty is not None and ty.k == 'ptr' and x[0] not in ('null', 'undef', 'clo', 'fn', 'i'):
                return ('aptr', (('m', x), ()), I(n))
            if x[0] != 'i' and not self.exact and ty is not None and ty.k == 'int' and ty.d.get('bits', 64) < 32:
                return ('trunc', I(ty.d['bits']), self.arith('+', x, I(n)))
            return self.arith('+', x, I(n), ty)
        return self.gvmap(v, f)

    def it_add(self, it, n):
        _, cont, pos = it
        if pos == BEGIN:
            pos = I(0)
        if n == I(0):
            return it
        if pos[0] in ('i', 'bv', 'add', 'fi', 'lv') or n[0] != 'i':
            return ('it', cont, self.arith('+', pos, n))
        if pos == END and n == I(-1):
            return ('it', cont, ('last',))
        return ('it', cont, ('adv', pos, n))

    def boolcombine(self, results):
        """Merge states that differ only in a boolean result."""
        return self.merge(results)

    def ev_bin(self, e, st, fr):
        op = e['op']
        ty = fr.tu.type(e['t'])
        if op in ('&&', '||'):
            out = []
            for s, v in self.ev(e['a'], st, fr):
                n = self.node(v)
                go = n if op == '&&' else self.M.NOT(n)
                s1 = self.assume(s, go)
                s2 = self.assume(s, self.M.NOT(go))
                if s1 is not None:
                    for s3, v3 in self.ev(e['b'], s1, fr):
                        out.append((s3, self.mkbool(self.node(v3))))
                if s2 is not None:
                    out.append((s2, FALSE if op == '&&' else TRUE))
            return self.boolcombine(out)
        if op == ',':
            out = []
            for s, _ in self.ev_any(e['a'], st, fr):
                out.extend(self.ev(e['b'], s, fr))
            return out
        out = []
        for s, a in self.ev(e['a'], st, fr):
            for s2, b in self.ev(e['b'], s, fr):
                out.append((s2, self.binop(op, a, b, e, ty, fr, s2)))
        return out

    def binop(self, op, a, b, e, ty, fr, s):
        a, b = self.prune(a, s.cond), self.prune(b, s.cond)
        if op in ('==', '!=', '<', '>', '<=', '>='):
            ta = self.etype(e['a'], fr)
            uns = bool(ta is not None and ta.d.get('u'))
            n = self.cmpop(op, a, b, uns, ta)
            return self.mkbool(n)
        if op in ('+', '-'):
            def f(x, y):
                if x[0] == 'aptr' or y[0] == 'aptr':
                    if op == '+':
                        p, n = (x, y) if x[0] == 'aptr' else (y, x)
                        return ('aptr', p[1], self.arith('+', p[2], n))
                    if y[0] == 'aptr':
                        if x[0] == 'aptr' and x[1] == y[1]:
                            return self.arith('-', x[2], y[2])
                    else:
                        return ('aptr', x[1], self.arith('-', x[2], y))
                if x[0] == 'cptr' or y[0] == 'cptr':
                    p, n = (x, y) if x[0] == 'cptr' else (y, x)
                    if op == '+' and n == I(0):
                        return p
                    return ('cptr', ('substr', p[1], n, ('npos',)))
                if x[0] == 'it' and y[0] == 'it' and op == '-' and x[1] == y[1]:
                    return self.mod.it_distance(self, st, y, x)
                if ty.k == 'ptr' and (x[0] == 'it' or y[0] == 'it' and op == '+'):
                    p, n = (x, y) if x[0] == 'it' else (y, x)
                    return self.it_add(p, n if op == '+' else self.arith('-', I(0), n))
                if ty.k == 'ptr' and op == '+':
                    p, n = (x, y)
                    if p[0] == 'i':
                        p, n = n, p
                    if n == I(0):
                        return p
                    return ('aptr', (('m', p), ()), n)
                return self.arith(op, x, y, ty)
            return self.gvmap2(a, b, f)
        return self.arith(op, a, b, ty)

    def etype(self, e, fr):
        t = e.get('t')
        if t is not None:
            return fr.tu.type(t)
        if 'e' in e:
            return self.etype(e['e'], fr)
        return None

    def cmpop(self, op, a, b, uns, ta=None):
        M = self.M
        if a[0] == 'gv' or b[0] == 'gv':
            return M.ORs(*[M.ANDs(ga, gb, self.cmpop(op, xa, xb, uns, ta)) for ga, xa in self.alts(a)
                           for gb, xb in self.alts(b) if M.AND(ga, gb)])
        isptr = ta is not None and ta.k in ('ptr', 'nullptr') or a[0] in ('ptr', 'aptr', 'cptr', 'null') or b[0] in ('ptr', 'aptr', 'cptr', 'null')
        if a[0] == 'aptr' and b[0] != 'aptr' and a[1] == (('m', b), ()):
            b = ('aptr', a[1], I(0))
        if b[0] == 'aptr' and a[0] != 'aptr' and b[1] == (('m', a), ()):
            a = ('aptr', b[1], I(0))
        if a[0] == 'aptr' and b[0] == 'aptr' and a[1] == b[1]:
            return self.intcmp(op, a[2], b[2], True)
        if op in ('==', '!='):
            if isptr:
                a2 = NULL if a == I(0) else a
                b2 = NULL if b == I(0) else b
                for x, y in ((a2, b2), (b2, a2)):
                    if y == NULL and x[0] in ('sym', 'fld', 'res', 'elem', 'app', 'deref', 'mget'):
                        n = M.lit(('val', x), (NULL,))
                        return n if op == '==' else M.NOT(n)
                n = self.eq(a2, b2)
            else:
                n = self.intcmp('==', a, b, uns) if self.intlike(a) and self.intlike(b) else self.eq(a, b)
            return n if op == '==' else M.NOT(n)
        return self.intcmp(op, a, b, uns)

    @staticmethod
    def intlike(v):
        return v[0] not in ('s', 'cat', 'st', 'ptr', 'aptr', 'cptr', 'null', 'it', 'map', 'vec')

    def ev_cond(self, e, st, fr):
        if e.get('lv'):
            return [(s, self.read(s, loc)) for s, loc in self.lv(e, st, fr)]
        out = []
        isvoid = fr.tu.type(e['t']).k == 'void'
        for s, v in self.ev(e['c'], st, fr):
            n = self.node(v)
            s1, s2 = self.assume(s, n), self.assume(s, self.M.NOT(n))
            for sx, br in ((s1, 'a'), (s2, 'b')):
                if sx is not None:
                    out.extend(self.ev_any(e[br], sx, fr) if isvoid else self.ev(e[br], sx, fr))
        return self.merge(out)

    def ev_asg(self, e, st, fr):
        return [(s, self.read(s, loc)) for s, loc in self.lv(e, st, fr)]

    def ev_tmp(self, e, st, fr):
        return self.ev(e['e'], st, fr)

    def ev_stdil(self, e, st, fr):
        return self.ev(e['e'], st, fr)

    def ev_il(self, e, st, fr):
        ty = fr.tu.type(e['t'])
        refs = {}
        rec = self.record(ty) if ty.k == 'rec' and e.get('f') else None
        if rec:
            kinds = {f['n']: ty.tu.type(f['t']).k for f in rec['f']}
            refs = {i for i, n in enumerate(e['f'][:len(e['a'])]) if kinds.get(n) in ('ref', 'rref')}
        if refs:
            res = [(st, ())]
            for i, a in enumerate(e['a']):
                if i in refs:
                    self.reffields.add(e['f'][i])
                    res = [(s2, vs + (('ref', loc),)) for s, vs in res for s2, loc in self.lvs(a, s, fr)]
                else:
                    res = [(s2, vs + (v,)) for s, vs in res for s2, v in self.ev(a, s, fr)]
        else:
            res = self.evs(e['a'], st, fr)
        out = []
        for s, vs in res:
            if ty.k == 'array':
                n = int(ty.d.get('n', len(vs)))
                vs = list(vs)
                if n > len(vs):
                    z = self.zero_value(ty.pointee)
                    if n - len(vs) > 512:
                        out.append((s, ('vfill', I(n), z)))
                        continue
                    vs += [z] * (n - len(vs))
                # character arrays initialised by a literal
                if len(e['a']) == 1 and e['a'][0]['k'] == 'str':
                    out.append((s, vs[0]))
                    continue
                out.append((s, ('vec', tuple(vs))))
            elif ty.k == 'rec':
                names = e.get('f', [])
                same = len(vs) == 1 and ('t' in e['a'][0] and fr.tu.type(e['a'][0]['t']).noref.rec == ty.rec or ty.rec in self.mod.STRS)
                if same or ty.rec == 'std::array' and len(vs) == 1:
                    out.append((s, vs[0]))
                    continue
                d = dict(zip(names, vs))
                out.append((s, ('st', ty.rec, tuple(sorted(d.items())))))
            else:
                out.append((s, vs[0] if vs else self.zero_value(ty)))
        return out

    def ev_lambda(self, e, st, fr):
        caps = []
        out = [(st, [])]
        for c in e['caps']:
            nxt = []
            for s, acc in out:
                if c.get('this'):
                    nxt.append((s, acc + [('this', fr.this)]))
                elif c.get('ref') and 'i' not in c:
                    nxt.append((s, acc + [('ref', c['d'], self.varloc(c['d'], s, fr))]))
                elif c.get('ref'):
                    for s2, loc in self.lvs(c['i'], s, fr):
                        nxt.append((s2, acc + [('ref', c['d'], loc)]))
                elif 'i' in c:
                    for s2, v in self.ev(c['i'], s, fr):
                        nxt.append((s2, acc + [('val', c['d'], v)]))
                else:
                    loc = self.varloc(c['d'], s, fr)
                    nxt.append((s, acc + [('val', c['d'], self.read(s, loc))]))
            out = nxt
        fid = e['f'] if e['f'] >= 0 else (e['alts'][0] if e['alts'] else -1)
        if fid < 0:
            return [(s, ('opq', 'lambda', self.cur)) for s, acc in out]
        return [(s, ('clo', fr.tu.name, fid, tuple(acc))) for s, acc in out]

    def ev_throw(self, e, st, fr):
        if e.get('e'):
            for s, v in self.ev(e['e'], st, fr):
                self.thrown.append((s, v))
        else:
            self.thrown.append((st, ('rethrow',)))
        return []

    def ev_new(self, e, st, fr):
        if e.get('array'):
            raise Unsupported('new at %s' % (self.cur,))
        ty = fr.tu.type(e['t'])
        out = []
        for s, v in (self.ev(e['i'], st, fr) if e.get('i') else [(st, self.default_value(ty))]):
            self.setcur(e, fr)
            if v[0] == 'lref':
                v = self.read(s, v[1])
            out.append(self.allocate(s, ty, v))
        return out

    def allocate(self, s, ty, v):
        """A new object that only pointers reach: (state, pointer)."""
        rec, seen = ty, set()
        while rec is not None and rec.rec and rec.rec not in seen:
            seen.add(rec.rec)
            for f in ty.tu.fns:
                if f.n.startswith('~') and f.d.get('rec') == rec.rec and not f.get('defaulted') and (f.body is None or (f.body.get('b') or {}).get('s')):
                    raise Unsupported('object with a destructor on the heap at %s' % (self.cur,))
            r = self.record(rec)
            bs = [ty.tu.type(b) for b in (r.get('b') or [])] if r else []
            rec = bs[0] if len(bs) == 1 else None
        n = sum(1 for r in s.mem if r[0] == 'h' and r[1] == self.cur)
        s = s.copy()
        s.mem[('h', self.cur, n)] = v
        return s, ('ptr', (('h', self.cur, n), ()))

    def ev_delete(self, e, st, fr):
        raise Unsupported('delete at %s' % (self.cur,))

    def ev_unk(self, e, st, fr):
        if e['cls'] in ('SourceLocExpr',):
            return [(st, ('opq', 'srcloc'))]
        if e['cls'] in ('UnaryExprOrTypeTraitExpr', 'TypeTraitExpr', 'CXXNoexceptExpr'):
            return [(st, ('opq', e['cls']))]
        raise Unsupported('expression %s at %s' % (e['cls'], self.cur))

    def ev_stmtexpr(self, e, st, fr):
        outs = self.exec(e['b'], st, fr)
        return [(s, UNDEF) for k, s, v in outs if k == 'n']

    def ev_vaarg(self, e, st, fr):
        return [(st, ('opq', 'vaarg', self.cur))]

    def ev_call(self, e, st, fr):
        out = []
        for s, v in self.do_call(e, st, fr):
            if v[0] == 'lref':
                v = self.read(s, v[1])
            out.append((s, self.typed(v, fr.tu.type(e['t']))))
        return out

    def ev_icall(self, e, st, fr):
        return self.ev_call(e, st, fr)

    def evs(self, es, st, fr):
        out = [(st, [])]
        for e in es:
            nxt = []
            for s, acc in out:
                for s2, v in self.ev(e, s, fr):
                    nxt.append((s2, acc + [v]))
            out = nxt
        return out

    # --------------------------------------------------------------- lvalues
    def varroot(self, d, fr):
        return ('v', fr.tu.name, d, fr.depth)

    def varloc(self, d, st, fr):
        c = fr.caps.get(d)
        if c is not None:
            return c
        root = self.varroot(d, fr)
        v = st.mem.get(root)
        if v is None:
            # variable of an enclosing function body seen from a local class
            raise Unsupported('unbound variable %r at %s' % (d, self.cur))
        if v[0] == 'ref':
            return v[1]
        return (root, ())

    def globloc(self, e, st, fr):
        d = e['d']
        g = fr.tu.globals.get(d)
        if g is None:
            return (('glob', e['g']), ())
        ty = fr.tu.type(g['t'])
        if g.get('const') and 'i' in g:
            key = (fr.tu.name, d)
            if key not in self.global_cache:
                self.global_cache[key] = self.global_init(fr.tu, g, ty)
            root = ('g', fr.tu.name, d)
            val = self.global_cache[key]
            if val[0] == 'lref':
                return val[1]
            return (root, ())
        return (('glob', g['q']), ())

    def global_init(self, tu, g, ty):
        fake = type('F', (), {})()
        fake.tu, fake.body, fake.q = tu, {'file': g['file']}, g['q']
        fr = Frame(fake, 30)
        if ty.k in ('ref', 'rref'):
            r = self.lvs(g['i'], State(), fr)
            if len(r) == 1:
                return ('lref', r[0][1])
            raise Unsupported('global %s' % g['q'])
        r = self.ev(g['i'], State(), fr)
        if len(r) != 1:
            raise Unsupported('global initialiser %s' % g['q'])
        return r[0][1]

    def lvs(self, e, st, fr):
        """Location of any expression; prvalues are materialised."""
        if self.is_lv(e):
            return self.lv(e, st, fr)
        out = []
        for s, v in self.ev(e, st, fr):
            if v[0] == 'lref':
                out.append((s, v[1]))
                continue
            s, loc = self.materialise(s, v, e, fr)
            out.append((s, loc))
        return out

    def materialise(self, s, v, e, fr):
        # temporaries live for the whole activation: numbered per state
        n = sum(1 for r in s.mem if r[0] == 't' and r[-1] == fr.depth)
        root = ('t', n, fr.depth)
        s = s.copy()
        s.mem[root] = v
        return s, (root, ())

    def deref(self, st, v, fr):
        """Locations a pointer value denotes: [(state, loc)]."""
        v = self.prune(v, st.cond)
        if v[0] == 'gv':
            out = []
            for g, x in v[1]:
                s = self.assume(st, g)
                if s is not None:
                    out.extend(self.deref(s, x, fr))
            return out
        if v[0] in ('ptr',):
            return [(st, v[1])]
        if v[0] == 'aptr':
            return [(st, (v[1][0], v[1][1] + (('at', v[2]),)))]
        if v[0] == 'it':
            pos = v[2]
            if pos == BEGIN:
                pos = I(0)
            if pos == END:
                self.nullderef.append((self.cur, 'end iterator', st.cond))
                return []
            if pos[0] == 'key':
                return [(st, (v[1][0], v[1][1] + (('k', pos[1]),)))]
            return [(st, (v[1][0], v[1][1] + (('at', pos),)))]
        if v == NULL:
            self.nullderef.append((self.cur, 'null', st.cond))
            return []
        if v[0] == 'cptr':
            return [(st, (('strlit', ('sat', v[1], I(0))), ()))]
        if v[0] == 'st' and v[1] == 'uptr':
            return self.deref(st, st_fields(v)['p'], fr)
        if v[0] == 'st' and v[1] == 'opt':
            raise Unsupported('optional deref')
        if v == UNDEF:
            raise Unsupported('dereference of an unknown pointer at %s' % (self.cur,))
        return [(st, (('m', v), ()))]

    def obj_lvs(self, b, arrow, st, fr):
        if not arrow:
            return self.lvs(b, st, fr)
        out = []
        for s, v in self.ev(b, st, fr):
            out.extend(self.deref(s, v, fr))
        return out

    def field_loc(self, s, loc, f):
        l = (loc[0], loc[1] + (('f', f),))
        if f in self.reffields:
            v = self.peek(s, l)
            if v[0] == 'ref':
                return v[1]
        elif f in ('first', 'second'):
            v = self.peek(s, l)
            if v[0] == 'refv':
                return v[1]
        return l

    def ev_mptr(self, e, st, fr):
        return [(st, ('mptr', e['f']))]

    def lv(self, e, st, fr):
        k = e['k']
        self.setcur(e, fr)
        if k == 'ref':
            if 'g' in e and self.varroot(e['d'], fr) not in st.mem:
                return [(st, self.globloc(e, st, fr))]
            return [(st, self.varloc(e['d'], st, fr))]
        if k == 'mem':
            out = []
            for s, loc in self.obj_lvs(e['b'], e['arrow'], st, fr):
                out.append((s, self.field_loc(s, loc, e['f'])))
            return out
        if k == 'pmem':
            out = []
            for s0, f in self.ev(e['fe'], st, fr):
                for s, fx in self.split(s0, f):
                    if fx[0] != 'mptr':
                        raise Unsupported('pointer to member %s at %s' % (self.show(fx)[:80], self.cur))
                    for s2, loc in self.obj_lvs(e['b'], e['arrow'], s, fr):
                        out.append((s2, self.field_loc(s2, loc, fx[1])))
            return out
        if k == 'idx':
            out = []
            for s, b in self.ev(e['b'], st, fr):
                for s2, i in self.ev(e['i'], s, fr):
                    for s3, x in self.split(s2, b):
                        if x[0] == 'aptr':
                            out.append((s3, (x[1][0], x[1][1] + (('at', self.arith('+', x[2], i)),))))
                        elif x[0] == 'cptr':
                            out.append((s3, (('strlit', self.strat(x[1], i)), ())))
                        elif x[0] == 'ptr':
                            loc = x[1]
                            if i == I(0):
                                out.append((s3, loc))
                            else:
                                out.append((s3, (loc[0], loc[1] + (('at', i),))))
                        elif x == NULL:
                            self.nullderef.append((self.cur, 'null', s3.cond))
                        else:
                            out.append((s3, (('m', x), (('at', i),))))
            return out
        if k == 'un':
            op = e['op']
            if op == '*':
                out = []
                for s, v in self.ev(e['e'], st, fr):
                    out.extend(self.deref(s, v, fr))
                return out
            if op in ('++', '--'):
                out = []
                ty = fr.tu.type(e['t'])
                for s, loc in self.lvs(e['e'], st, fr):
                    new = self.bump(self.read(s, loc), 1 if op == '++' else -1, ty)
                    s = s.copy()
                    self.write(s, loc, new)
                    out.append((s, loc))
                return out
        if k == 'asg':
            out = []
            ty = fr.tu.type(e['t'])
            if e['op'] == '=':
                for s, v in self.ev(e['b'], st, fr):
                    for s2, loc in self.lvs(e['a'], s, fr):
                        s2 = s2.copy()
                        self.setcur(e, fr)
                        self.write(s2, loc, v)
                        out.append((s2, loc))
                return out
            for s, v in self.ev(e['b'], st, fr):
                for s2, loc in self.lvs(e['a'], s, fr):
                    old = self.read(s2, loc)
                    op = e['op'][:-1]
                    if op in ('+', '-') and old[0] in ('aptr', 'it'):
                        new = self.bump(old, (v[1] if op == '+' else -v[1]), ty) if v[0] == 'i' else ('opq', 'ptrarith', self.cur)
                    elif op in ('|', '&') and ty.k == 'bool':
                        n1, n2 = self.node(old), self.node(v)
                        new = self.mkbool(self.M.OR(n1, n2) if op == '|' else self.M.AND(n1, n2))
                    else:
                        if op in ('|', '&') and self.boolish(old) and self.boolish(v):
                            n1, n2 = self.node(old), self.node(v)
                            new = self.mkbool(self.M.OR(n1, n2) if op == '|' else self.M.AND(n1, n2))
                        else:
                            new = self.arith(op, old, v, ty)
                            if not self.exact and ty.k == 'int' and ty.d.get('bits', 64) < 32 and op in ('+', '-', '*'):
                                new = self.gvmap(new, lambda x: x if x[0] == 'i' else ('trunc', I(ty.d['bits']), x))
                    s2 = s2.copy()
                    self.setcur(e, fr)
                    self.write(s2, loc, new)
                    out.append((s2, loc))
            return out
        if k == 'str':
            return [(st, (('strlit', S(e['v'])), ()))]
        if k == 'tmp':
            out = []
            for s, v in self.ev(e['e'], st, fr):
                if v[0] == 'lref':
                    v = self.read(s, v[1])
                s, loc = self.materialise(s, v, e, fr)
                if 'dt' in e and not e.get('ext'):
                    s.raii = s.raii + (('dtor', loc[0], (fr.tu.name, e['dt'])),)
                elif not e.get('ext') and v[0] == 'st' and v[1] in ('lock', 'uptr'):
                    s.raii = s.raii + (('std', loc[0]),)
                out.append((s, loc))
            return out
        if k in ('call', 'icall'):
            out = []
            for s, v in self.do_call(e, st, fr):
                if v[0] == 'gv':
                    vs = [(g, x) for g, x in v[1]]
                else:
                    vs = [(1, v)]
                for g, x in vs:
                    s1 = self.assume(s, g)
                    if s1 is None:
                        continue
                    if x[0] == 'lref':
                        out.append((s1, x[1]))
                    else:
                        s2, loc = self.materialise(s1, x, e, fr)
                        out.append((s2, loc))
            return out
        if k == 'cond':
            out = []
            for s, v in self.ev(e['c'], st, fr):
                n = self.node(v)
                for nn, br in ((n, 'a'), (self.M.NOT(n), 'b')):
                    s1 = self.assume(s, nn)
                    if s1 is not None:
                        out.extend(self.lvs(e[br], s1, fr))
            return out
        if k == 'cast':
            return self.lvs(e['e'], st, fr)
        if k == 'bin' and e['op'] == ',':
            out = []
            for s, _ in self.ev_any(e['a'], st, fr):
                out.extend(self.lvs(e['b'], s, fr))
            return out
        raise Unsupported('lvalue %s at %s' % (k, self.cur))

    @staticmethod
    def boolish(v):
        return v in (TRUE, FALSE) or (v[0] == 'gv' and all(x in (TRUE, FALSE) for _, x in v[1]))

    def split(self, st, v):
        v = self.prune(v, st.cond)
        if v[0] != 'gv':
            return [(st, v)]
        out = []
        for g, x in v[1]:
            s = self.assume(st, g)
            if s is not None:
                out.append((s, x))
        return out

    def strat(self, s, i):
        if s[0] == 's' and i[0] == 'i':
            if 0 <= i[1] < len(s[1]):
                return I(ord(s[1][i[1]]))
            if i[1] == len(s[1]):
                return I(0)
        if s[0] == 's' and i == ('lastch',) and s[1]:
            return I(ord(s[1][-1]))
        return ('sat', s, i)

    # ------------------------------------------------------------------ types
    def zero_value(self, ty):
        if ty is None:
            return UNDEF
        k = ty.k
        if k in ('int', 'bool', 'enum'):
            return I(0)
        if k in ('ptr', 'nullptr'):
            return NULL
        if k == 'float':
            return ('flt', '0')
        if k == 'array':
            n = int(ty.d.get('n', 0))
            z = self.zero_value(ty.pointee)
            return ('vec', (z,) * n) if n <= 64 else ('vfill', I(n), z)
        if k == 'rec':
            return self.default_value(ty, zero=True)
        return UNDEF

    def default_value(self, ty, zero=False):
        """Value of a default-initialised object of the type."""
        if ty.k == 'array':
            n = int(ty.d.get('n', 0))
            z = self.default_value(ty.pointee, zero) if ty.pointee.k == 'rec' else (self.zero_value(ty.pointee) if zero else UNDEF)
            return ('vec', (z,) * n) if n <= 64 else ('vfill', I(n), z)
        if ty.k != 'rec':
            return self.zero_value(ty) if zero else UNDEF
        v = self.mod.default_std(self, ty)
        if v is not None:
            return v
        rec = self.record(ty)
        if rec is None:
            return ('st', ty.rec, ()) if zero else UNDEF
        d = {}
        for f in rec['f']:
            ft = ty.tu.type(f['t'])
            if 'i' in f:
                fake = type('F', (), {})()
                fake.tu, fake.body, fake.q = ty.tu, {'file': rec['file']}, ty.rec
                r = self.ev(f['i'], State(), Frame(fake, 31))
                d[f['n']] = r[0][1]
            else:
                d[f['n']] = self.default_value(ft, zero)
        return ('st', ty.rec, tuple(sorted(d.items())))

    def record(self, ty):
        ty = ty.noref
        r = ty.tu.records.get(ty.d.get('n', ''))
        if r is None:
            s = ty.s or ''
            if s.startswith('const '):
                s = s[6:]
            r = ty.tu.records.get(s)
        return r

    # ------------------------------------------------------------------ calls
    def eval_args(self, aes, ptys, st, fr):
        """Arguments as ('L', loc) for references and ('V', value) otherwise."""
        out = [(st, [])]
        for i, ae in enumerate(aes):
            pt = ptys[i] if i < len(ptys) else None
            nxt = []
            for s, acc in out:
                if pt is not None and pt.k in ('ref', 'rref'):
                    for s2, loc in self.lvs(ae, s, fr):
                        nxt.append((s2, acc + [('L', loc)]))
                else:
                    for s2, v in self.ev(ae, s, fr):
                        nxt.append((s2, acc + [('V', v)]))
            out = nxt
        return out

    def aval(self, s, a):
        if a[0] == 'V':
            return a[1]
        return self.read(s, a[1])

    def do_call(self, e, st, fr):
        if e['k'] == 'icall':
            out = []
            for s, f in self.ev(e['fe'], st, fr):
                # parameter kinds are taken from the target when known
                for s1, fx in self.split(s, f):
                    tgt = self.callable_fn(fx)
                    if 'o' in e:
                        if tgt is None:
                            raise Unsupported('call through a pointer to member at %s' % (self.cur,))
                        for s2, obj in self.obj_lvs(e['o'], e['arrow'], s1, fr):
                            for s3, args in self.eval_args(e['a'], tgt.params, s2, fr):
                                self.setcur(e, fr)
                                out.extend(self.call(s3, fr, tgt, obj, args, e))
                        continue
                    pts = tgt.params if tgt is not None else []
                    for s2, args in self.eval_args(e['a'], pts, s1, fr):
                        self.setcur(e, fr)
                        out.extend(self.invoke(s2, fr, fx, args, e))
            return out
        fn = fr.tu.fns[e['c']]
        out = []
        if 'o' in e:
            objs = []
            if e.get('arrow'):
                for s, v in self.ev(e['o'], st, fr):
                    objs.extend(self.deref(s, v, fr))
            else:
                objs = self.lvs(e['o'], st, fr)
        else:
            objs = [(st, None)]
        for s, obj in objs:
            for s2, args in self.eval_args(e['a'], fn.params, s, fr):
                self.setcur(e, fr)
                out.extend(self.call(s2, fr, fn, obj, args, e))
        return out

    def override(self, fn, v):
        """The function that a virtual call reaches on an object of known class."""
        if v[0] != 'st' or v[1] == fn.d.get('rec'):
            return fn
        rec, seen = v[1], set()
        while rec and rec not in seen and rec != fn.d.get('rec'):
            seen.add(rec)
            for f in fn.tu.fns:
                if f.d.get('rec') == rec and f.n == fn.n and len(f.params) == len(fn.params) and \
                        f.get('const') == fn.get('const') and all(a.s == b.s for a, b in zip(f.params, fn.params)):
                    return f
            r = fn.tu.records.get(rec)
            bs = [fn.tu.type(b) for b in r.get('b') or []] if r else []
            rec = bs[0].rec if len(bs) == 1 else None
        return fn

    def callable_fn(self, f):
        if f[0] == 'fn':
            return self.prog.tus[f[1]].fns[f[2]]
        if f[0] == 'clo':
            return self.prog.tus[f[1]].fns[f[2]]
        return None

    def call(self, st, fr, fn, obj, args, e):
        """Call a resolved function: [(state, value)]; value may be ('lref', loc)."""
        for h in self.call_hooks:
            r = h(self, st, fr, fn, obj, args, e)
            if r is not None:
                return r
        if fn.d.get('lambda') and obj is not None and fn.n != 'operator()' and fn.n.startswith('operator ') and not args:
            return [(st, self.read(st, obj))]      # to a function pointer
        if fn.q == '__assert_fail':
            self.asserts.append((self.cur, st.cond))
            return []
        if fn.get('lambda') and fn.n == 'operator()':
            v = self.read(st, obj) if obj is not None else UNDEF
            out = []
            for s, x in self.split(st, v):
                out.extend(self.invoke(s, fr, x, args, e, fn))
            return out
        if self.ignore_fn(fn):
            return [(st, UNDEF if fn.ret.k == 'void' else ('ign', fn.q))]
        if fn.get('virtual') and obj is not None and not e.get('qual'):
            v = self.peek(st, obj)
            if v[0] == 'gv' and len({self.override(fn, x).q for _, x in v[1]}) > 1:
                out = []
                for g, x in v[1]:
                    s1 = self.assume(st, g)
                    if s1 is not None:
                        out.extend(self.call(s1, fr, self.override(fn, x), obj, args, dict(e, qual=True)))
                return out
            fn = self.override(fn, v[1][0][1] if v[0] == 'gv' else v)
        if not self.opaque_fn(fn):
            tgt = self.prog.resolve(fn)
            if tgt is not None:
                return self.inline(st, fr, tgt, obj, args, e)
            m = self.mod.lookup(self, fn)
            if m is not None:
                self.modelled[fn.q] = self.modelled.get(fn.q, 0) + 1
                try:
                    r = m(self, st, fr, fn, obj, args, e)
                except self.mod.Undecided as x:
                    r = []
                    for s, _ in self.split(st, x.value):
                        r.extend(m(self, s, fr, fn, obj, args, e))
                if r is not None:
                    return r
            if fn.get('copyasg'):
                s = st.copy()
                v = self.aval(s, args[0])
                self.move_out(s, fn, args[0])
                self.write(s, obj, v)
                return [(s, ('lref', obj))]
            if fn.get('dtor'):
                return [(st, UNDEF)]
        return self.opaque_call(st, fr, fn, obj, args, e)

    def move_out(self, s, fn, arg, ptype=None):
        """A move from a named object leaves it unspecified."""
        pt = fn.params[0]
        if pt.k != 'rref' or arg[0] != 'L':
            return
        if arg[1][0][0] == 't':
            return
        rec = pt.rec
        if rec.startswith('std::') or rec in ('rmw_dds_common::msg::ParticipantEntitiesInfo', 'rmw_dds_common::msg::NodeEntitiesInfo'):
            self.write(s, arg[1], ('moved',), quiet=True)

    def snapshot(self, st, v):
        """Pointer arguments to locals are recorded with what they point to."""
        if v[0] == 'ptr' and v[1][0][0] in ('v', 't', 'c', 'x'):
            return ('ptrto', self.peek(st, v[1]))
        if v[0] == 'gv':
            return ('gv', tuple((g, self.snapshot(st, x)) for g, x in v[1]))
        return v

    def opaque_call(self, st, fr, fn, obj, args, e):
        q = fn.q
        self.opaque_calls[q] = self.opaque_calls.get(q, 0) + 1
        vals = []
        s = st.copy()
        for i, a in enumerate(args):
            if a[0] == 'L':
                pt = fn.params[i] if i < len(fn.params) else None
                vals.append(('at', a[1]) if pt is not None and not pt.pointee.const else self.read(s, a[1]))
            else:
                vals.append(self.snapshot(s, a[1]))
        if self.pure_fn(fn):
            if obj is not None:
                vals.insert(0, self.read(s, obj))
            r = ('app', q) + tuple(vals)
            return [(s, self.typed(r, fn.ret))]
        n = evweight(s.ev)
        r = ('res', q, n) + tuple(('bv', i) for i in range(fr.loopdepth))
        self.event(s, 'call', q, obj, tuple(vals), r)
        # memory reachable through mutable pointers/references is unknown afterwards
        known = self.opt.get('known_fns', ())
        if q not in known:
            for i, a in enumerate(args):
                pt = fn.params[i] if i < len(fn.params) else None
                tgt = None
                if a[0] == 'L' and pt is not None and not pt.pointee.const:
                    tgt = a[1]
                elif a[0] == 'V' and a[1][0] == 'ptr' and pt is not None and pt.k == 'ptr' and not pt.pointee.const:
                    tgt = a[1][1]
                elif self.havoc_ptr and a[0] == 'V' and pt is not None and pt.k == 'ptr' and not pt.pointee.const and \
                        a[1][0] in ('sym', 'fld', 'deref', 'elem', 'res', 'lv', 'outp'):
                    tgt = (('m', a[1]), ())
                if tgt is not None:
                    self.write(s, tgt, ('outp', r, I(i)), log=False)
            if obj is not None and not fn.get('const') and q not in known:
                self.write(s, obj, ('outp', r, ('obj',)), log=False)
        rt = fn.ret
        if rt.k == 'void':
            return [(s, UNDEF)]
        if rt.k in ('ref', 'rref'):
            root = ('m', r)
            return [(s, ('lref', (root, ())))]
        return [(s, self.typed(r, rt))]

    def inline(self, st, fr, fn, obj, args, e=None, caps=None, this=None):
        if fr.depth >= self.MAXDEPTH:
            raise Unsupported('inlining depth at %s' % fn.q)
        f = fr
        while f is not None:
            if f.fn is fn and not fn.get('lambda'):
                if sum(1 for _ in self.chain(fr, fn)) > 3:
                    raise Unsupported('recursion in %s' % fn.q)
            f = f.parent
        self.inlined[fn.key] = fn
        nf = Frame(fn, fr.depth + 1, this=this if this is not None else obj, caps=caps, parent=fr, line=self.cur[1])
        s = st.copy()
        nf.varargs = tuple(self.aval(s, a) for a in args[len(fn.body['p']):])
        for i, p in enumerate(fn.body['p']):
            pt = fn.tu.type(p['t'])
            if i >= len(args):
                break
            root = ('v', fn.tu.name, p['d'], nf.depth)
            a = args[i]
            if pt.k in ('ref', 'rref'):
                if a[0] == 'L':
                    s.mem[root] = ('ref', a[1])
                else:
                    s.mem[('x', p['d'], nf.depth)] = a[1]
                    s.mem[root] = ('ref', (('x', p['d'], nf.depth), ()))
            else:
                s.mem[root] = self.aval(s, a)
        saved_cur = self.cur
        height = len(s.raii)
        outs = []
        if fn.get('ctor'):
            outs0 = [('n', s, None)]
            done = {i.get('f') for i in fn.body.get('inits', [])}
            for init in fn.body.get('inits', []):
                nxt = []
                for k, s1, v in outs0:
                    if k != 'n':
                        nxt.append((k, s1, v))
                        continue
                    nxt.extend(self.ctor_init(init, s1, nf))
                outs0 = nxt
            for k, s1, v in outs0:
                if k == 'n':
                    outs.extend(self.exec(fn.body['b'], s1, nf))
                else:
                    outs.append((k, s1, v))
        else:
            outs = self.exec(fn.body['b'], s, nf)
        self.cur = saved_cur
        res = []
        for k, s1, v in outs:
            if len(s1.raii) > height:
                for k2, s2, v2 in self.unwind(s1, height, nf, k, v):
                    res.append((k2, s2, v2))
            else:
                res.append((k, s1, v))
        outs = []
        for k, s1, v in res:
            s1 = self.pop_frame(s1, nf.depth)
            if k == 'r' or k == 'n':
                outs.append((s1, v if v is not None else UNDEF))
            elif k == 't':
                self.thrown.append((s1, v))
            else:
                raise Unsupported('stray %s in %s' % (k, fn.q))
        self.cur = saved_cur
        return self.merge(outs)

    def chain(self, fr, fn):
        while fr is not None:
            if fr.fn is fn:
                yield fr
            fr = fr.parent

    def ctor_init(self, init, s, nf):
        saved, self.thrown = self.thrown, []
        out = []
        if 'i' not in init:
            self.thrown = saved
            return [('n', s, None)]
        if init.get('base') or init.get('deleg'):
            e = init['i']
            if e['k'] == 'ctor':
                fn = nf.tu.fns[e['c']]
                tgt = self.prog.resolve(fn)
                if tgt is not None:
                    for s1, args in self.eval_args(e['a'], fn.params, s, nf):
                        for s2, _ in self.inline(s1, nf, tgt, nf.this, args, e):
                            out.append(('n', s2, None))
                else:
                    out.append(('n', s, None))
            else:
                out.append(('n', s, None))
        else:
            field_is_ref = False
            e = init['i']
            loc = (nf.this[0], nf.this[1] + (('f', init['f']),))
            rec = self.record(nf.fn.rectype) if nf.fn.rectype else None
            if rec:
                for f in rec['f']:
                    if f['n'] == init['f'] and nf.tu.type(f['t']).k in ('ref', 'rref'):
                        field_is_ref = True
            if field_is_ref:
                for s1, l2 in self.lvs(e, s, nf):
                    s1 = s1.copy()
                    self.reffields.add(init['f'])
                    self.write(s1, loc, ('ref', l2), quiet=True)
                    out.append(('n', s1, None))
            else:
                for s1, v in self.ev(e, s, nf):
                    s1 = s1.copy()
                    self.write(s1, loc, v, quiet=True)
                    out.append(('n', s1, None))
        for s1, v in self.thrown:
            out.append(('t', s1, v))
        self.thrown = saved
        return out

    def pop_frame(self, st, depth):
        dead = [r for r in st.mem if (r[0] == 'v' and r[3] >= depth) or (r[0] in ('t', 'x', 'c') and r[-1] >= depth)]
        if not dead:
            return st
        s = st.copy()
        for r in dead:
            del s.mem[r]
        return s

    def invoke(self, st, fr, f, args, e, fn_hint=None):
        """Call a callable value."""
        f = self.prune(f, st.cond)
        if f[0] == 'gv':
            out = []
            for s, x in self.split(st, f):
                out.extend(self.invoke(s, fr, x, args, e, fn_hint))
            return self.merge(out)
        if f[0] == 'fn':
            fn = self.prog.tus[f[1]].fns[f[2]]
            tgt = self.prog.resolve(fn)
            return self.call(st, fr, fn, None, args, e)
        if f[0] == 'clo':
            fn = self.prog.tus[f[1]].fns[f[2]]
            if fn_hint is not None and fn_hint.body is not None:
                fn = fn_hint
            if fn.body is None:
                raise Unsupported('lambda without body')
            caps = {}
            this = None
            s = st.copy()
            for c in f[3]:
                if c[0] == 'this':
                    this = c[1]
                elif c[0] == 'ref':
                    caps[c[1]] = c[2]
                else:
                    root = ('c', c[1], fr.depth + 1)
                    s.mem[root] = c[2]
                    caps[c[1]] = (root, ())
            return self.inline(s, fr, fn, None, args, e, caps=caps, this=this)
        if f[0] == 'bind':
            _, g, bargs = f
            full = []
            for b in bargs:
                if b[0] == 'ph':
                    full.append(args[b[1] - 1])
                elif b[0] == 'refw':
                    full.append(('L', b[1]))
                else:
                    full.append(('V', b))
            return self.invoke(st, fr, g, full, e)
        if f[0] == 'st':
            ops = [o for tu in self.prog.tus.values() for o in tu.fns if o.n == 'operator()' and o.d.get('rec') == f[1] and
                   len(o.params) == len(args) and o.body is not None]
            if len(ops) != 1:
                raise Unsupported('call of object %s at %s' % (f[1], self.cur))
            s = st.copy()
            root = ('t', ('fo', len(s.mem)), fr.depth)
            s.mem[root] = f
            return self.inline(s, fr, ops[0], (root, ()), args, e)
        if f == NULL or f == UNDEF:
            self.nullderef.append((self.cur, 'empty callable', st.cond))
            return []
        return self.opaque_invoke(st, fr, f, args, e)

    def opaque_invoke(self, st, fr, f, args, e):
        s = st.copy()
        ty = fr.tu.type(e['t']) if e is not None and 't' in e else None
        vals = []
        muts = []
        for a in args:
            if a[0] == 'L':
                vals.append(self.read(s, a[1]))
            else:
                vals.append(self.snapshot(s, a[1]))
                if a[1][0] == 'ptr' and a[1][1][0][0] in ('v', 't', 'x', 'c'):
                    muts.append(a[1][1])
        pure = self.opt.get('pure_callable')
        if pure is None:
            ispure = ty is not None and ty.k == 'rec'
        else:
            ispure = pure(f, ty)
        if ispure:
            for h in self.call_hooks:
                pass
            return [(s, ('app', '()', f) + tuple(vals))]
        n = evweight(s.ev)
        r = ('res', ('cb', f), n) + tuple(('bv', i) for i in range(fr.loopdepth))
        self.event(s, 'cb', f, tuple(vals), r)
        hook = self.opt.get('cb_effect')
        if hook:
            hook(self, s, f, args, r)
        return [(s, UNDEF if ty is None or ty.k == 'void' else self.typed(r, ty))]

    def ev_ctor(self, e, st, fr):
        fn = fr.tu.fns[e['c']]
        ty = fr.tu.type(e['t'])
        out = []
        if ty.k == 'array':
            return [(st, self.default_value(ty))]
        for s, args in self.eval_args(e['a'], fn.params, st, fr):
            self.setcur(e, fr)
            r = self.construct(s, fr, fn, ty, args, e)
            out.extend(r)
        return out

    def construct(self, s, fr, fn, ty, args, e):
        if fn.get('copyctor') and len(args) >= 1 and not (fn.body is not None and not fn.get('defaulted')):
            a = args[0]
            v = self.aval(s, a)
            if fn.params[0].k == 'rref':
                s = s.copy()
                self.move_out(s, fn, a)
            return [(s, v)]
        r = self.mod.construct_std(self, s, fr, fn, ty, args, e)
        if r is not None:
            return r
        tgt = self.prog.resolve(fn)
        if tgt is None or tgt.body is None or fn.get('defaulted') and fn.get('defctor'):
            if fn.get('defctor') and (self.record(ty) is not None or ty.d.get('lam')):
                return [(s, self.default_value(ty, zero=bool(e.get('zero'))))]
            return self.opaque_ctor(s, fr, fn, ty, args, e)
        n = sum(1 for r_ in s.mem if r_[0] == 't' and r_[-1] == fr.depth)
        root = ('t', n, fr.depth)
        s = s.copy()
        s.mem[root] = self.default_value(ty)
        if s.mem[root] == UNDEF:
            s.mem[root] = ('st', ty.rec, ())
        out = []
        for s1, _ in self.inline(s, fr, tgt, (root, ()), args, e):
            v = s1.mem[root]
            s1 = s1.copy()
            out.append((s1, v))
        return out

    def opaque_ctor(self, s, fr, fn, ty, args, e):
        vals = tuple(self.snapshot(s, self.aval(s, a)) for a in args)
        self.opaque_calls[fn.q] = self.opaque_calls.get(fn.q, 0) + 1
        return [(s, ('app', fn.q) + vals)]

    # ------------------------------------------------------------- statements
    def exec(self, n, st, fr):
        if n is None:
            return [('n', st, None)]
        k = n['k']
        if n.get('l'):
            self.setcur(n, fr)
        saved, self.thrown = self.thrown, []
        try:
            outs = getattr(self, 'ex_' + k)(n, st, fr)
        except AttributeError as ex:
            if ("'ex_" + k) in str(ex):
                raise Unsupported('statement %s at %s' % (k, self.cur))
            raise
        for s, v in self.thrown:
            outs.append(('t', s, v))
        self.thrown = saved
        return outs

    def ex_nop(self, n, st, fr):
        return [('n', st, None)]

    def full(self, st, fr, pairs, height):
        """End of a full expression: destroy temporaries created in it."""
        out = []
        for s, v in pairs:
            if len(s.raii) > height:
                for k, s2, v2 in self.unwind(s, height, fr, 'n', v):
                    if k == 't':
                        self.thrown.append((s2, v2))
                    else:
                        out.append((s2, v2))
            else:
                out.append((s, v))
        return out

    def drop_temps(self, s, fr, keep=()):
        dead = [r for r in s.mem if r[0] == 't' and r[-1] == fr.depth and r not in keep]
        if dead:
            # keep the ones some reference still denotes
            live = set()
            for r, v in s.mem.items():
                if r in dead:
                    continue
                for d in dead:
                    if contains_term(v, lambda x: x == d):
                        live.add(d)
            dead = [d for d in dead if d not in live]
        if dead:
            s = s.copy()
            for r in dead:
                del s.mem[r]
        return s

    def ex_ex(self, n, st, fr):
        h = len(st.raii)
        pairs = self.ev_any(n['e'], st, fr)
        out = []
        for s, v in pairs:
            if isinstance(v, tuple) and v and v[0] == 'st' and v[1] == 'lock':
                out.extend((s1, None) for s1 in self.destroy_std(v, None, s, fr))   # an unnamed guard
            else:
                out.append((s, v))
        pairs = self.full(st, fr, out, h)
        return [('n', s, None) for s, _ in self.merge([(self.drop_temps(s, fr), None) for s, _ in pairs])]

    def ex_blk(self, n, st, fr):
        stmts = n['s']
        height = len(st.raii)
        outs = []

        def run(idx, states):
            cur = states
            for i in range(idx, len(stmts)):
                nxt = []
                for s in cur:
                    for o in self.exec(stmts[i], s, fr):
                        if o[0] == 'n':
                            nxt.append((o[1], None))
                        else:
                            outs.append(o)
                cur = [s for s, _ in self.merge(nxt)]
                if not cur:
                    break
            for s in cur:
                outs.append(('n', s, None))

        run(0, [st])
        labels = {}
        for i, x in enumerate(stmts):
            y = x
            while y is not None and y['k'] == 'label':
                labels[y['d']] = i
                y = y.get('s')
        for _ in range(8):
            jumps = [o for o in outs if o[0][0] == 'g' and o[0][1] in labels]
            if not jumps:
                break
            outs[:] = [o for o in outs if not (o[0][0] == 'g' and o[0][1] in labels)]
            by = {}
            for o in jumps:
                by.setdefault(labels[o[0][1]], []).append((o[1], None))
            for idx, lst in by.items():
                run(idx, [s for s, _ in self.merge(lst)])
        else:
            raise Unsupported('goto loop')
        decls = [v['d'] for x in stmts if x['k'] == 'decl' for v in x['v']]
        binds = [b['d'] for x in stmts if x['k'] == 'decl' for v in x['v'] for b in v.get('binds', [])]
        res = []
        for k, s, v in outs:
            for k2, s2, v2 in (self.unwind(s, height, fr, k, v) if len(s.raii) > height else [(k, s, v)]):
                dead = [('v', fr.tu.name, d, fr.depth) for d in decls + binds]
                if any(r in s2.mem for r in dead):
                    s2 = s2.copy()
                    for r in dead:
                        s2.mem.pop(r, None)
                res.append((k2, s2, v2))
        return self.merge_outs(res)

    def unwind(self, s, height, fr, kind, val):
        """Run the destructors of objects registered above height."""
        work = [(kind, s, val)]
        while True:
            nxt, more = [], False
            for k, s1, v in work:
                if len(s1.raii) <= height:
                    nxt.append((k, s1, v))
                    continue
                more = True
                ent = s1.raii[-1]
                s1 = s1.copy()
                s1.raii = s1.raii[:-1]
                saved, self.thrown = self.thrown, []
                rs = self.destroy(ent, s1, fr)
                for s2 in rs:
                    nxt.append((k, s2, v))
                for s2, tv in self.thrown:
                    nxt.append(('t', s2, tv))
                self.thrown = saved
            work = nxt
            if not more:
                return work

    def destroy(self, ent, s, fr):
        kind, root = ent[0], ent[1]
        v = s.mem.get(root, UNDEF)
        if kind == 'dtor':
            fn = self.prog.tus[ent[2][0]].fns[ent[2][1]]
            tgt = self.prog.resolve(fn)
            if tgt is None:
                return [s]
            return [x for x, _ in self.inline(s, fr, tgt, (root, ()), [], None)]
        out = []
        for s1, x in self.split(s, v):
            out.extend(self.destroy_std(x, root, s1, fr))
        return out

    def destroy_std(self, x, root, s, fr):
        if x[0] == 'st' and x[1] == 'lock':
            f = st_fields(x)
            res = []
            for s1, h in ((self.assume(s, self.node(f['held'])), True), (self.assume(s, self.M.NOT(self.node(f['held']))), False)):
                if s1 is None:
                    continue
                if h:
                    for m in f['m'][1:]:
                        s1 = self.unlock(s1, m)
                res.append(s1)
            return res
        if x[0] == 'st' and x[1] == 'uptr':
            f = st_fields(x)
            res = []
            n = self.node(f['p'])
            s1, s2 = self.assume(s, n), self.assume(s, self.M.NOT(n))
            if s2 is not None:
                res.append(s2)
            if s1 is not None:
                if f['del'] == ('default_delete',):
                    res.append(s1)
                else:
                    r = self.invoke(s1, fr, f['del'], [('V', f['p'])], None)
                    res.extend(a for a, _ in r)
            return res
        return [s]

    # locks ---------------------------------------------------------------
    def lock(self, st, m, kind='lock'):
        for h in self.lock_hooks:
            h(self, st, m, 'lock')
        s = st.copy()
        s.ev = s.ev + (('lock', m, self.cur) if kind == 'lock' else ('lock', m, kind, self.cur),)
        s.locks = s.locks + (m,)
        return s

    def unlock(self, st, m):
        for h in self.lock_hooks:
            h(self, st, m, 'unlock')
        s = st.copy()
        s.ev = s.ev + (('unlock', m, self.cur),)
        l = list(s.locks)
        if m in l:
            l.reverse()
            l.remove(m)
            l.reverse()
        s.locks = tuple(l)
        return s

    def ex_decl(self, n, st, fr):
        cur = [(st, None)]
        for v in n['v']:
            nxt = []
            for s, _ in cur:
                nxt.extend(self.declare(v, s, fr))
            cur = self.merge(nxt)
        return [('n', s, None) for s, _ in cur]

    def declare(self, v, st, fr):
        ty = fr.tu.type(v['t'])
        root = ('v', fr.tu.name, v['d'], fr.depth)
        h = len(st.raii)
        out = []
        if v.get('static'):
            g = fr.tu.globals.get(v['d'])
            if not (ty.const or (g and g.get('const'))):
                s = st.copy()
                s.mem[root] = ('ref', (('glob', 'static:%s:%s' % (fr.fn.q, v['n'])), ()))
                return [(s, None)]
        if 'i' not in v:
            s = st.copy()
            s.mem[root] = self.default_value(ty)
            return [(s, None)]
        e = v['i']
        if ty.k in ('ref', 'rref'):
            for s, loc in self.lvs(e, st, fr):
                s = s.copy()
                # lifetime extension
                if loc[0][0] == 't' and loc[0][-1] == fr.depth:
                    x = ('x', v['d'], fr.depth)
                    s.mem[x] = s.mem.pop(loc[0])
                    s.raii = tuple((r[0], x) + r[2:] if r[1] == loc[0] else r for r in s.raii)
                    loc = (x, loc[1])
                    s.mem[root] = ('ref', loc)
                    # extended temporaries keep their destructor until scope end
                    ext = tuple(r for r in s.raii[h:] if r[1] == x)
                    rest = tuple(r for r in s.raii[h:] if r[1] != x)
                    s.raii = s.raii[:h] + ext + rest
                    for s2, _ in self.full(st, fr, [(s, None)], h + len(ext)):
                        out.append((s2, None))
                    continue
                s.mem[root] = ('ref', loc)
                for s2, _ in self.full(st, fr, [(s, None)], h):
                    out.append((s2, None))
        else:
            for s, val in self.ev(e, st, fr):
                if val[0] == 'lref':
                    val = self.read(s, val[1])
                for s2, val2 in self.full(st, fr, [(s, val)], h):
                    s2 = s2.copy()
                    if v.get('static'):
                        # outlives the call
                        sv = ('sv', fr.tu.name, v['d'])
                        s2.mem[sv] = val2
                        s2.mem[root] = ('ref', (sv, ()))
                    else:
                        s2.mem[root] = val2
                    out.append((s2, None))
        res = []
        for s, _ in out:
            if ty.k == 'rec' and not v.get('static'):
                if 'dt' in v:
                    s.raii = s.raii + (('dtor', root, (fr.tu.name, v['dt'])),)
                elif ty.rec in ('std::lock_guard', 'std::unique_lock', 'std::scoped_lock', 'std::shared_lock', 'std::unique_ptr'):
                    s.raii = s.raii + (('std', root),)
            for b in v.get('binds', []):
                s = self.bind_decl(b, v, s, fr, root, ty)
            s = self.drop_temps(s, fr)
            res.append((s, None))
        return res

    def bind_decl(self, b, v, s, fr, root, ty):
        base = s.mem[root]
        loc = base[1] if base[0] == 'ref' else (root, ())
        idx = [x['d'] for x in v['binds']].index(b['d'])
        t = ty.noref
        if t.rec == 'std::pair':
            l = (loc[0], loc[1] + (('f', ('first', 'second')[idx]),))
        elif t.rec == 'std::tuple':
            l = (loc[0], loc[1] + (('f', str(idx)),))
        elif t.k == 'array' or t.rec == 'std::array':
            l = (loc[0], loc[1] + (('at', I(idx)),))
        else:
            rec = self.record(t)
            if rec is None:
                raise Unsupported('structured binding of %s at %s' % (t.s, self.cur))
            l = (loc[0], loc[1] + (('f', rec['f'][idx]['n']),))
        s = s.copy()
        s.mem[('v', fr.tu.name, b['d'], fr.depth)] = ('ref', l)
        if 'h' in b:
            s.mem[('v', fr.tu.name, b['h'], fr.depth)] = ('ref', l)
        return s

    def branch(self, e, st, fr):
        """[(true state or None, false state or None)] for a condition."""
        h = len(st.raii)
        res = []
        pairs = self.full(st, fr, self.ev(e, st, fr), h)
        pairs = [(self.drop_temps(s, fr), v) for s, v in pairs]
        for s, v in self.merge(pairs):
            n = self.node(v)
            res.append((self.assume(s, n), self.assume(s, self.M.NOT(n))))
        return res

    def with_init(self, n, st, fr, body):
        """Handle if/switch init statements and condition variables as a scope."""
        pre = [x for x in (n.get('init'), n.get('cv')) if x]
        if not pre:
            return body(st)
        inner = {'k': 'blk', 's': pre + [{'k': 'pyhook', 'f': body}]}
        return self.ex_blk(inner, st, fr)

    def ex_pyhook(self, n, st, fr):
        return n['f'](st)

    def ex_if(self, n, st, fr):
        def body(st):
            outs = []
            for s1, s2 in self.branch(n['c'], st, fr):
                if s1 is not None:
                    outs.extend(self.exec(n.get('a'), s1, fr))
                if s2 is not None:
                    outs.extend(self.exec(n.get('b'), s2, fr))
            return self.merge_outs(outs)
        return self.with_init(n, st, fr, body)

    def ex_ret(self, n, st, fr):
        if 'e' not in n:
            return [('r', st, UNDEF)]
        rt = fr.fn.ret
        h = len(st.raii)
        outs = []
        if rt.k in ('ref', 'rref'):
            for s, loc in self.lvs(n['e'], st, fr):
                outs.append((s, ('lref', loc)))
        elif rt.k == 'void':
            outs = self.ev_any(n['e'], st, fr)
        else:
            for s, v in self.ev(n['e'], st, fr):
                if v[0] == 'lref':
                    v = self.read(s, v[1])
                # named return value: ownership leaves the local
                if v[0] == 'st' and v[1] in ('lock', 'uptr'):
                    r = n['e']
                    while r['k'] in ('ctor', 'l2r', 'tmp', 'cast') and (r.get('e') or r.get('a')):
                        r = r.get('e') or r['a'][0]
                    if r['k'] == 'ref':
                        s = s.copy()
                        s.mem[self.varroot(r['d'], fr)] = ('moved',)
                outs.append((s, self.prune(v, s.cond)))
        outs = self.full(st, fr, outs, h)
        return [('r', s, v) for s, v in self.merge(outs)]

    def ex_break(self, n, st, fr):
        return [('b', st, None)]

    def ex_cont(self, n, st, fr):
        return [('c', st, None)]

    def ex_goto(self, n, st, fr):
        return [(('g', n['d']), st, None)]

    def ex_label(self, n, st, fr):
        return self.exec(n['s'], st, fr)

    def ex_switch(self, n, st, fr):
        def body(st):
            items = []   # (node stmt index, labels)
            blk = n['b']
            stmts = blk['s'] if blk['k'] == 'blk' else [blk]
            flat = []

            def flatten(x):
                labs = []
                while x is not None and x['k'] in ('case', 'default'):
                    labs.append(x)
                    x = x.get('s')
                return labs, x
            for x in stmts:
                labs, y = flatten(x)
                flat.append((labs, y))
            outs = []
            for s, v in self.ev(n['c'], st, fr):
                rest = self.M.NOT(0)
                entries = []
                default = None
                for i, (labs, y) in enumerate(flat):
                    node = 0
                    for lb in labs:
                        if lb['k'] == 'default':
                            default = i
                        else:
                            cv = I(lb['v']['v'])
                            if 'v2' in lb:
                                hi = lb['v2']['v']
                                for q in range(cv[1], min(hi, cv[1] + 256) + 1):
                                    node = self.M.OR(node, self.eq(v, I(q)))
                            else:
                                node = self.M.OR(node, self.eq(v, cv))
                    if node:
                        entries.append((i, self.M.AND(node, rest)))
                        rest = self.M.AND(rest, self.M.NOT(node))
                if default is not None:
                    entries.append((default, rest))
                else:
                    s0 = self.assume(s, rest)
                    if s0 is not None:
                        outs.append(('n', s0, None))
                for i, node in entries:
                    s1 = self.assume(s, node)
                    if s1 is None:
                        continue
                    inner = {'k': 'blk', 's': [y for _, y in flat[i:] if y is not None]}
                    # variables declared before this label are in scope but uninitialised
                    for o in self.ex_blk(inner, s1, fr):
                        if o[0] == 'b':
                            outs.append(('n', o[1], None))
                        else:
                            outs.append(o)
            return self.merge_outs(outs)
        return self.with_init(n, st, fr, body)

    def ex_try(self, n, st, fr):
        self.try_depth = getattr(self, 'try_depth', 0) + 1
        outs0 = self.exec(n['b'], st, fr)
        self.try_depth -= 1
        outs = []
        for k, s, v in outs0:
            if k != 't':
                outs.append((k, s, v))
                continue
            handled = False
            for h in n['h']:
                if 'v' not in h or self.catches(h, v, fr):
                    handled = True
                    s1 = s
                    if 'v' in h:
                        s1 = s.copy()
                        s1.mem[('x', h['v']['d'], fr.depth)] = v
                        s1.mem[('v', fr.tu.name, h['v']['d'], fr.depth)] = ('ref', (('x', h['v']['d'], fr.depth), ()))
                    for o in self.exec(h['b'], s1, fr):
                        if o[0] == 't' and o[2] == ('rethrow',):
                            outs.append(('t', o[1], v))
                        else:
                            outs.append(o)
                    break
            if not handled:
                outs.append((k, s, v))
        return self.merge_outs(outs)

    def catches(self, h, v, fr):
        t = fr.tu.type(h['v']['t'])
        t = t.noref
        name = t.rec or t.s
        exc = v[1] if v[0] == 'exc' else ''
        bases = {'std::filesystem::filesystem_error': ('std::filesystem::filesystem_error', 'std::system_error',
                                                       'std::runtime_error', 'std::exception')}
        if exc:
            return name in bases.get(exc, (exc, 'std::exception'))
        return True

    # loops -----------------------------------------------------------------
    def ex_forr(self, n, st, fr):
        import loops
        return loops.ex_forr(self, n, st, fr)

    def ex_for(self, n, st, fr):
        import loops
        return loops.ex_for(self, n, st, fr)

    def ex_while(self, n, st, fr):
        import loops
        return loops.ex_for(self, n, st, fr)

    def ex_do(self, n, st, fr):
        import loops
        return loops.ex_do(self, n, st, fr)

    # ---------------------------------------------------------------- driver
    def run(self, fn, args, this=None, mem=None, cond=1):
        """Analyse fn as an entry point.  Returns exits [(kind, state, value)]."""
        fake = type('F', (), {})()
        fake.tu, fake.body, fake.q = fn.tu, None, '<entry>'
        fr = Frame(fake, 0)
        st = State(dict(mem or {}), cond)
        self.thrown = []
        self.entry = fn
        self.inlined[fn.key] = fn
        if this is None and fn.get('method') and not fn.get('static'):
            this = (('this',), ())
            if fn.get('ctor') and this[0] not in st.mem and fn.rectype is not None:
                v = self.default_value(fn.rectype)
                st.mem[this[0]] = v if v != UNDEF else ('st', fn.rectype.rec, ())
        outs = self.inline(st, fr, fn, this, args)
        res = [('r', s, v) for s, v in outs]
        res += [('t', s, v) for s, v in self.thrown]
        return res

    def entry_args(self, fn, names=None):
        """Symbolic arguments for the parameters of fn."""
        args = []
        for i, p in enumerate(fn.body['p']):
            ty = fn.tu.type(p['t'])
            nm = p['n'] or 'arg%d' % i
            nm = (names[i] if names else nm)
            if ty.k in ('ref', 'rref'):
                args.append(('L', (('m', ('sym', nm)), ())))
            else:
                v = ('sym', nm)
                args.append(('V', self.typed(v, ty)))
        return args

    # ------------------------------------------------------------ reporting
    def care(self):
        """Background facts about the atoms used so far."""
        M = self.M
        ax = 1
        anys = [a for a in M.vars if a[0] == 'any']
        by = {}
        for a in anys:
            by.setdefault(a[1], []).append(a)
        for V, l in by.items():
            for a in l:
                for b in l:
                    if a is not b and (b[2] == 1 or (a[2] != 1 and M.implies(a[2], b[2]))):
                        ax = M.AND(ax, M.OR(M.NOT(M.lit(a)), M.lit(b)))
        return ax

    def show(self, t, depth=0):
        """Readable form of a term."""
        if not isinstance(t, tuple):
            return str(t)
        k = t[0] if t else ''
        sh = lambda x: self.show(x, depth + 1)
        if depth > 7:
            return '...'
        if k == 'i':
            return str(t[1])
        if k == 's':
            return repr(t[1])
        if k == 'sym':
            return t[1]
        if k == 'fld':
            return '%s.%s' % (sh(t[1]), t[2])
        if k == 'deref':
            return '*%s' % sh(t[1])
        if k == 'cat':
            return ' + '.join(sh(x) for x in t[1])
        if k == 'gv':
            return '{' + ' | '.join('%s if %s' % (sh(v), self.shownode(g)) for g, v in t[1][:6]) + '}'
        if k == 'st':
            return '%s{%s}' % (t[1], ', '.join('%s=%s' % (f, sh(v)) for f, v in t[2]))
        if k == 'fn':
            try:
                return self.prog.tus[t[1]].fns[t[2]].q
            except Exception:
                return 'fn'
        if k in ('undef', 'null', 'absent', 'empty'):
            return k
        return '%s(%s)' % (k, ', '.join(sh(x) for x in t[1:]))

    def showatom(self, a, key):
        if a[0] == 'val':
            if isinstance(key, tuple) and key and key[0] == 'not':
                return '%s not in {%s}' % (self.show(a[1], 3), ', '.join(self.show(x) for x in key[1]))
            return '%s == %s' % (self.show(a[1], 3), self.show(key))
        neg = isinstance(key, tuple) and key and key[0] == 'not'
        s = '%s' % self.show(a, 3)
        if neg:
            return 'not ' + s if key[1] == (1,) else '%s not in %r' % (s, key[1])
        return s if key == 1 else '%s:%r' % (s, key)

    def shownode(self, n, limit=2):
        if n == 1:
            return 'true'
        if n == 0:
            return 'false'
        cs = self.M.cubes(n, limit + 1)
        t = ' OR '.join(' & '.join(self.showatom(a, k) for a, k in c) for c in cs[:limit])
        return t + (' OR ...' if len(cs) > limit else '')
