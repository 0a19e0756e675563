"""Security enclave lookup: C01-C08."""
from core import Inconclusive, contains_term, where, loc
from concrete import TextEval, Undefined
from engine import S, I, TRUE, FALSE, EMPTY, ABSENT, UNDEF

FILES = {'IDENTITY_CA': 'identity_ca.cert.pem', 'CERTIFICATE': 'cert.pem', 'PRIVATE_KEY': 'key.pem',
         'PERMISSIONS_CA': 'permissions_ca.cert.pem', 'GOVERNANCE': 'governance.p7s', 'PERMISSIONS': 'permissions.p7s'}
P11 = {'IDENTITY_CA': 'identity_ca.cert.p11', 'CERTIFICATE': 'cert.p11', 'PRIVATE_KEY': 'key.p11',
       'PERMISSIONS_CA': 'permissions_ca.cert.p11'}
CRL = 'crl.pem'
KNOWN = {'cat', 'slen', 's', 'i', 'deref', 'sym', 'gstr', 'nstr', 'pjoin', 'path', 'tok', 'mget', 'absent', 'pcat', 'papp', 'line',
         'content', 'substr', 'glob', 'empty', 'undef', 'map', 'gv', 'has', 'val', 'sat', 'open', 'rdtok', 'ftype', 'size',
         'len', 'ne', 'lt', 'le', 'errc', 'emptystr', 'sfind', 'sfindp', 'smut', 'lastch', 'rfind', 'cmp', 'eq', 'any', 'unread', 'ptr', 'at', 'k', 'f', 'fsq', 'fsfail', 'lv', 'bool', 'contains', 'static', 'g', 'v'}
TUS = ['security']


def foreign(t):
    """Heads in t that the security vocabulary does not cover."""
    bad = set()

    def go(x):
        if isinstance(x, tuple) and x:
            if isinstance(x[0], str) and x[0] not in KNOWN:
                bad.add(x[0])
            for y in (x[1:] if isinstance(x[0], str) else x):
                if isinstance(y, tuple) and x[0] not in ('s', 'sym', 'i'):
                    go(y)
    go(t)
    return bad


class Run:
    """One analysed overload under one iteration order of the literal tables."""

    def __init__(self, ctx, fn, rev, supports=None, tag='', eng=None):
        self.ctx, self.fn = ctx, fn
        self.eng = eng = eng or ctx.engine(reverse_unordered=rev)
        M = self.M = eng.M
        names, sym = [], {}
        for p in fn.body['p']:
            ty = fn.tu.type(p['t'])
            names.append(None)
        strs = 0
        roles = []
        for i, p in enumerate(fn.body['p']):
            ty = fn.tu.type(p['t'])
            if ty.k in ('ref', 'rref') and ty.rec == 'std::basic_string':
                roles.append(('prefix', 'secure_root')[strs] if strs < 2 else 'str%d' % strs)
                strs += 1
            elif ty.rec == 'std::unordered_map':
                roles.append('result')
            elif ty.rec in ('std::basic_string', 'std::basic_string_view'):
                roles.append(('prefix', 'secure_root')[strs] if strs < 2 else 'str%d' % strs)
                strs += 1
            else:
                roles.append('supports_pkcs11')
        if strs != 2 or 'result' not in roles:
            raise Inconclusive('get_security_files has an unexpected signature')
        args = eng.entry_args(fn, roles)
        self.supports_sym = ('sym', 'supports_pkcs11')
        if supports is not None:
            args = [('V', I(supports)) if r == 'supports_pkcs11' else a for r, a in zip(roles, args)]
        self.has_supports = 'supports_pkcs11' in roles
        self.fixed = supports
        self.prefix = self.text(('deref', ('sym', 'prefix')), roles, 'prefix', fn)
        self.root = self.text(('deref', ('sym', 'secure_root')), roles, 'secure_root', fn)
        self.outs = ctx.run(eng, fn, args)
        self.tag = '%s%s' % (where(fn), tag)
        self.ret, self.maps = [], []
        self.R0 = self.R1 = 0
        for k, s, v in self.outs:
            if k != 'r':
                continue
            n = eng.node(v)
            self.R1 = M.OR(self.R1, M.AND(s.cond, n))
            self.R0 = M.OR(self.R0, M.AND(s.cond, M.NOT(n)))
            m = eng.read(s, (('m', ('sym', 'result')), ()))
            for g, x in eng.alts(m):
                self.maps.append((M.AND(s.cond, g), x))
        self.thrown = [(s.cond, v, s) for k, s, v in self.outs if k == 't']
        self.care = M.AND(eng.care(), self.fs_axioms())
        self.shown, self.searches = None, 0

    @staticmethod
    def text(ref, roles, role, fn):
        for r, p in zip(roles, fn.body['p']):
            if r == role and fn.tu.type(p['t']).k not in ('ref', 'rref'):
                return ref[1]
        return ref

    def path(self, name):
        return ('pjoin', ('path', self.root), S(name))

    def ftype(self, name, kind='regular'):
        return self.M.lit(('ftype', self.path(name)), (kind,), dom=('regular', 'directory', 'other', 'notfound', 'error'))

    def p11(self, k):
        """The designated PKCS#11 file of k yields a usable URI."""
        if k not in P11:
            return 0
        M, p = self.M, self.path(P11[k])
        t = ('tok', p, I(0))
        return M.ANDs(self.supports(), M.lit(('open', p), (1,)), M.lit(('rdtok', p, I(0)), (1,)), self.eng.startswith(t, 'pkcs11:'))

    def supports(self):
        if self.fixed is not None:
            return 1 if self.fixed else 0
        return self.eng.node(self.eng.typed(self.supports_sym, _BOOL)) if self.has_supports else 0

    def fs_axioms(self):
        """What one stable file system guarantees between the observations of a path."""
        M, ax = self.M, 1
        used = {}
        for nd in M.nodes:
            if nd and isinstance(nd, tuple) and len(nd) == 3:
                used.setdefault(nd[0], set()).update(k for k, _ in nd[1])
        dom = ('regular', 'directory', 'other', 'notfound', 'error')
        for a in list(M.vars):
            if a[0] in ('open', 'rdtok'):
                ft = ('ftype', a[1])
                if ft in M.level:
                    no = M.lit(ft, ('notfound', 'error') if a[0] == 'open' else ('notfound', 'error', 'directory'), dom=dom)
                    ax = M.AND(ax, M.NOT(M.AND(M.lit(a, (1,)), no)))
            t = a[1] if a[0] == 'val' else None
            if t and t[0] == 'sfind' and t[2][0] == 's':
                # found at a position other than 0: the text does not start with it
                ax = M.AND(ax, M.OR(M.NOT(M.lit(a, (I(2 ** 64 - 1),))), M.NOT(self.eng.startswith(t[1], t[2][1]))))
            n = len('pkcs11:')
            if a[0] == 'cmp' and a[1][0] == 'slen' and a[2] == I(0) and 0 <= a[3] <= n:
                # a text that starts with n characters is not shorter than n
                short = M.lit(a, ('<',) if a[3] == n else ('<', '='))
                ax = M.AND(ax, M.NOT(M.AND(short, self.eng.startswith(a[1][1], 'pkcs11:'))))
            if t and t[0] == 'tok':
                for k in used.get(M.level[a], ()):
                    if k[0] == 's':
                        sw = self.eng.startswith(t, 'pkcs11:')
                        ax = M.AND(ax, M.OR(M.NOT(M.lit(a, (k,))), sw if k[1].startswith('pkcs11:') else M.NOT(sw)))
            if t and t[0] == 'slen':
                for k in used.get(M.level[a], ()):
                    if k[0] == 'i' and k[1] < n:
                        ax = M.AND(ax, M.NOT(M.AND(M.lit(a, (k,)), self.eng.startswith(t[1], 'pkcs11:'))))
        return ax

    def feasible(self, n):
        return self.M.AND(n, self.care) != 0

    def covers(self, a, b):
        """a implies b."""
        return not self.feasible(self.M.AND(a, self.M.NOT(b)))

    def unknown_in(self, n):
        bad = set()
        for a in self.M.support(n):
            bad |= foreign(a)
        return bad

    def unk(self, bad):
        """Nothing shows that bad can happen, and it depends on something without a model."""
        return self.feasible(bad) and bool(self.unknown_in(bad)) and not self.witness(bad)

    def witness(self, bad):
        """Texts for the prefix, the directory and the tokens under which bad is reached whatever else holds."""
        if self.shown is not None or self.searches >= 8:
            return False
        self.searches += 1
        M, f = self.M, self.M.AND(bad, self.care)
        for prefix in ('', 'file://', 'pkcs11:'):
            for root in ('/r', 'r.d/pkcs11:'):
                for text in ('pkcs11:', 'pkcs11:a', 'pkcs11:' + 'a' * 5000, 'a', 'xpkcs11:a'):
                    env = {('tok', self.path(p), I(0)): text for p in P11.values()}
                    env[self.prefix], env[self.root] = prefix, root
                    n = self.restrict(f, TextEval(self.eng, env.get))
                    if n != 0 and not self.unknown_in(n):
                        self.shown = (prefix, root, text)
                        return True
        return False

    def restrict(self, f, ev):
        """f where the conditions on texts have the values that ev gives them."""
        M, memo, vals = self.M, {}, {}

        def go(n):
            if n < 2:
                return n
            if n not in memo:
                lv, e, d = M.nodes[n]
                a = M.vars[lv]
                if a not in vals or a[0] == 'val':
                    vals[a] = self
                    if a[0] in ('val', 'eq', 'cmp'):
                        try:
                            vals[a] = ev.atom(a, [k for k, _ in e])
                        except Undefined:
                            pass
                if vals[a] is not self:
                    memo[n] = go(dict(e).get(vals[a], d))
                else:
                    memo[n] = M.mk(lv, {k: go(c) for k, c in e}, go(d))
            return memo[n]
        return go(f)

    def entries(self, key, cond):
        """[(condition, value or ABSENT)] of the result entry under cond."""
        out = []
        for g, m in self.maps:
            g = self.M.AND(g, cond)
            if not self.feasible(g):
                continue
            h = self.eng.map_has(m, S(key))
            if self.feasible(self.M.AND(g, self.M.NOT(h))):
                out.append((self.M.AND(g, self.M.NOT(h)), ABSENT, m))
            for g2, v in self.eng.alts(self.eng.map_get(m, S(key))):
                c = self.M.ANDs(g, h, g2)
                if v != ABSENT and self.feasible(c):
                    out.append((c, v, m))
        return out

    def emptymap(self, m):
        if m == EMPTY:
            return 1
        if m[0] == 'gv':
            return self.M.ORs(*[self.M.AND(g, self.emptymap(x)) for g, x in m[1]])
        if m[0] == 'map':
            n = self.emptymap(m[1])
            for k, v in m[2]:
                n = self.M.AND(n, self.M.NOT(self.eng._present(v)))
            return n
        if m == ('deref', ('sym', 'result')):
            n = self.M.NOT(self.eng.nonempty(m))
            return n
        return 0

    def sh(self, t):
        return self.eng.show(t)[:200]

    def shn(self, n):
        return self.eng.shownode(self.M.AND(n, self.care), 1)[:300]

    def derived11(self, v):
        return contains_term(v, lambda x: x[0] == 's' and len(x) == 2 and isinstance(x[1], str) and x[1].endswith('.p11'))

    def filevals(self, name):
        p = self.path(name)
        from engine import cat
        return (cat(self.prefix, ('gstr', p)), cat(self.prefix, ('nstr', p)))


class _B:
    k = 'bool'
    s = 'bool'
    d = {}
    const = False
    rec = ''
    noref = None
    pointee = None


_BOOL = _B()


def runs(ctx, short=False):
    out = []
    fs = ctx.find('rmw_dds_common::get_security_files')
    long_ = [f for f in fs if len(f.d['p']) == 4]
    if not long_:
        raise Inconclusive('get_security_files(bool, ...) not found')
    for f in fs:
        if len(f.d['p']) not in (3, 4):
            raise Inconclusive('unexpected overload %s' % where(f))
        for rev in (False, True):
            out.append(Run(ctx, f, rev, tag=' (table order %s)' % ('reversed' if rev else 'as written')))
    return out


BASE = ('The overloads of get_security_files are analysed path-sensitively over all inputs and all answers of the file system '
        '(helpers, callbacks and table loops inlined); the guarded return value and result map at every exit are compared with the rule.')
ASSUME = ('the file system does not change while one lookup runs',
          'std::filesystem, ifstream and the containers behave as the C++17 standard says (modelled, not analysed)',
          'memory allocation does not fail')


def begin(ctx):
    ctx.assume(*ASSUME)
    rs = runs(ctx)
    for r in rs:
        if r.eng.nullderef:
            for cur, what, c in r.eng.nullderef:
                if r.feasible(c):
                    ctx.ob('no null dereference', loc(cur), False, what)
    return rs


def c01(ctx):
    ctx.rule(BASE + ' Rule: false => result empty; true => all six required keys present; true only if every required attribute has '
             'a candidate; all six files regular => true.')
    for r in begin(ctx):
        M = r.M
        for g, m in r.maps:
            c = M.AND(g, r.R0)
            if r.feasible(c):
                bad = M.AND(c, M.NOT(r.emptymap(m)))
                ctx.ob('a failed lookup leaves the result empty', r.tag, not r.feasible(bad),
                       'returns false with result = %s when %s' % (r.sh(m), r.shn(bad)),
                       unknown=r.unk(bad) or bool(foreign(m)))
        allfiles = 1
        for k in FILES:
            allfiles = M.AND(allfiles, r.ftype(FILES[k]))
            miss = 0
            for c, v, m in r.entries(k, r.R1):
                if v == ABSENT:
                    miss = M.OR(miss, c)
            ctx.ob('a successful lookup yields %s' % k, r.tag, not r.feasible(miss), 'returns true without %s when %s' % (k, r.shn(miss)),
                   unknown=r.unk(miss))
            cand = r.ftype(FILES[k])
            if k in P11:
                cand = M.OR(cand, M.AND(r.supports(), M.lit(('open', r.path(P11[k])), (1,))))
            bad = M.AND(r.R1, M.NOT(cand))
            ctx.ob('success requires a file for %s' % k, r.tag, not r.feasible(bad), 'returns true although %s is missing when %s' % (k, r.shn(bad)),
                   unknown=r.unk(bad))
        thrown = M.ORs(*[c for c, _, _ in r.thrown])
        bad = M.ANDs(allfiles, r.R0, M.NOT(thrown))
        ctx.ob('all required files present means success', r.tag, not r.feasible(bad), 'returns false although all files exist when %s' % r.shn(bad),
               unknown=r.unk(bad))


def c02(ctx):
    ctx.rule(BASE + ' Rule: on success every file-valued attribute equals prefix + (secure_root / its own designated file name), '
             'every token-valued attribute is read from its own .p11 file, and no other key is written.')
    names = dict(FILES, CRL=CRL)
    for r in begin(ctx):
        for k, f in names.items():
            for c, v, m in r.entries(k, r.R1):
                if v == ABSENT:
                    continue
                if v == ('mget', ('deref', ('sym', 'result')), S(k)):
                    # whatever the caller's map held before; C01 demands that the six are written
                    if k == 'CRL':
                        continue
                    ctx.ob('%s comes from its designated file' % k, r.tag, False, 'the value is left over from before the call when %s' % r.shn(c))
                    continue
                if r.derived11(v):
                    p = r.path(P11[k]) if k in P11 else None
                    ok = p is not None and contains_term(v, lambda x: x == p)
                    other = contains_term(v, lambda x: x[0] == 'pjoin' and x != p)
                    ctx.ob('%s comes from its designated file' % k, r.tag, ok and not other, '%s = %s when %s' % (k, r.sh(v), r.shn(c)),
                           unknown=bool(foreign(v)) or r.unk(c))
                else:
                    ctx.ob('%s comes from its designated file' % k, r.tag, v in r.filevals(f), '%s = %s when %s' % (k, r.sh(v), r.shn(c)),
                           unknown=bool(foreign(v)) or r.unk(c))
        for g, m in r.maps:
            if not r.feasible(r.M.AND(g, r.R1)):
                continue
            for key in mapkeys(m):
                ctx.ob('only designated attributes are reported', r.tag, key[0] == 's' and key[1] in names, 'key %s' % r.sh(key), unknown=bool(foreign(key)))


def mapkeys(m):
    if m[0] == 'gv':
        return {k for _, x in m[1] for k in mapkeys(x)}
    if m[0] == 'map':
        return mapkeys(m[1]) | {k for k, _ in m[2]}
    return set()


def c03(ctx):
    ctx.rule(BASE + ' Rule: an attribute takes the PKCS#11 value exactly when PKCS#11 is supported and its own .p11 file opens and starts '
             'with a pkcs11: token; otherwise it falls back to its file; success iff every required attribute has one of the two.')
    for r in begin(ctx):
        M = r.M
        need = 1
        for k in FILES:
            pk = r.p11(k)
            need = M.AND(need, M.OR(pk, r.ftype(FILES[k])))
            for c, v, m in r.entries(k, r.R1):
                if v == ABSENT:
                    continue
                d = r.derived11(v)
                bad = M.AND(c, M.NOT(pk) if d else pk)
                ctx.ob('PKCS#11 value used for %s iff usable' % k, r.tag, not r.feasible(bad),
                       '%s = %s when %s' % (k, r.sh(v), r.shn(bad)), unknown=bool(foreign(v)) or r.unk(bad))
        thrown = M.ORs(*[c for c, _, _ in r.thrown])
        for nm, bad in (('success without a usable source', M.AND(r.R1, M.NOT(need))), ('failure although every attribute is usable', M.ANDs(r.R0, need, M.NOT(thrown)))):
            ctx.ob('success iff each attribute has a usable source', r.tag, not r.feasible(bad), '%s when %s' % (nm, r.shn(bad)),
                   unknown=r.unk(bad))


def c04(ctx):
    ctx.rule(BASE + ' Rule: every value taken from a .p11 file is exactly the first whitespace-delimited token of that file, begins with '
             '"pkcs11:" and carries no prefix; when such a token is selected nothing else is.')
    for r in begin(ctx):
        M = r.M
        for k in P11:
            t = ('tok', r.path(P11[k]), I(0))
            for c, v, m in r.entries(k, r.R1):
                if v == ABSENT:
                    continue
                if r.derived11(v):
                    ctx.ob('%s token verbatim' % k, r.tag, v == t, '%s = %s when %s' % (k, r.sh(v), r.shn(c)), unknown=bool(foreign(v)))
                    bad = M.AND(c, M.NOT(r.eng.startswith(t, 'pkcs11:')))
                    ctx.ob('%s token is a pkcs11: URI' % k, r.tag, not r.feasible(bad), 'accepted when %s' % r.shn(bad), unknown=r.unk(bad))
                else:
                    ctx.ob('%s file value is not a token' % k, r.tag, not contains_term(v, lambda x: x[0] in ('tok', 'line', 'content')),
                           '%s = %s' % (k, r.sh(v)))


def c05(ctx):
    ctx.rule(BASE + ' Rule: the return value does not depend on crl.pem; on success CRL is prefix + secure_root/crl.pem iff that is a regular '
             'file, otherwise the lookup adds no CRL entry.')
    for r in begin(ctx):
        M = r.M
        crl = ('ftype', r.path(CRL))
        n1 = M.exists(M.AND(r.R1, M.lit(crl, ('regular',), dom=('regular', 'directory', 'other', 'notfound', 'error'))), lambda a: a == crl)
        for k in ('directory', 'other', 'notfound'):
            n2 = M.exists(M.AND(r.R1, r.ftype(CRL, k)), lambda a: a == crl)
            ctx.ob('the revocation list is optional', r.tag, n1 == n2, 'the outcome depends on crl.pem being %s' % k, unknown=bool(r.unknown_in(r.R1)))
        isf = r.ftype(CRL)
        for c, v, m in r.entries('CRL', r.R1):
            old = v == ('mget', ('deref', ('sym', 'result')), S('CRL'))
            if v == ABSENT or old:
                bad = M.AND(c, isf)
                ctx.ob('CRL reported when present', r.tag, not r.feasible(bad), 'no CRL entry written when %s' % r.shn(bad), unknown=r.unk(bad))
            else:
                bad = M.AND(c, M.NOT(isf))
                ctx.ob('CRL reported only when present', r.tag, not r.feasible(bad), 'CRL = %s when %s' % (r.sh(v), r.shn(bad)), unknown=r.unk(bad))
                ctx.ob('CRL value', r.tag, v in r.filevals(CRL), 'CRL = %s' % r.sh(v), unknown=bool(foreign(v)) or r.unk(c))


WRITES = ('create_directory', 'create_directories', 'remove', 'remove_all', 'rename', 'copy', 'copy_file', 'resize_file', 'permissions',
          'create_symlink', 'create_hard_link', 'last_write_time', 'current_path', 'create_directory_symlink', 'copy_symlink')
OK_OPAQUE = ()


def c06(ctx):
    ctx.rule(BASE + ' Rule (effect analysis): every path handed to a file system operation is secure_root itself or secure_root joined with one '
             'plain file name; streams are opened for reading only; no mutating file system call is reachable.')
    for r in begin(ctx):
        for u in r.eng.fs_uses:
            fn, p, cur = u[0], u[1], u[2]
            short = fn.split('::')[-1]
            ctx.site('%s %s' % (loc(cur), fn))
            ctx.ob('file system use is read-only', loc(cur), short not in WRITES, '%s(%s)' % (fn, r.sh(p)))
            if fn in ('open', 'wopen') or short == 'open':
                mode = u[3] if len(u) > 3 else I(8)
                bad = fn == 'wopen'
                if not bad and mode[0] == 'i':
                    bad = bool(mode[1] & ~(8 | 4 | 2)) or not (mode[1] & 8)
                ctx.ob('stream opened for reading', loc(cur), not bad, 'open mode %s' % r.sh(mode), unknown=mode[0] != 'i')
            for g, x in r.eng.alts(p):
                if x in (('path', r.root), r.root):
                    continue
                ok = x[0] == 'pjoin' and x[1] == ('path', r.root) and x[2][0] == 's' and plain(x[2][1])
                ctx.ob('path stays inside the enclave', loc(cur), ok, '%s on %s' % (fn, r.sh(x)), unknown=bool(foreign(x)))
        for q, n in r.eng.opaque_calls.items():
            ctx.ob('no unmodelled effect', r.tag, False, 'call of %s' % q, unknown=True)


def plain(s):
    return s not in ('', '.', '..') and '/' not in s and '\\' not in s and '\0' not in s


def c07(ctx):
    ctx.rule(BASE + ' Rule: the short overload and the long overload with PKCS#11 disabled have the same guarded return value and the same '
             'guarded value for every key.')
    ctx.assume(*ASSUME)
    fs = ctx.find('rmw_dds_common::get_security_files')
    short = [f for f in fs if len(f.d['p']) == 3]
    long_ = [f for f in fs if len(f.d['p']) == 4]
    if len(short) != 1 or len(long_) != 1:
        raise Inconclusive('overload set changed')
    for rev in (False, True):
        eng = ctx.engine(reverse_unordered=rev)
        a = Run(ctx, short[0], rev, eng=eng)
        b = Run(ctx, long_[0], rev, supports=0, eng=eng)
        M, care = eng.M, eng.M.AND(a.care, b.care)

        def same(what, x, y):
            d = M.AND(care, M.OR(M.AND(x, M.NOT(y)), M.AND(y, M.NOT(x))))
            ctx.ob(what, a.tag, d == 0, 'the overloads differ when %s' % b.shn(d), unknown=b.unk(d))
        same('same success condition', a.R1, b.R1)
        same('same failure condition', a.R0, b.R0)
        same('same exceptions', M.ORs(*[c for c, _, _ in a.thrown]), M.ORs(*[c for c, _, _ in b.thrown]))
        keys = set()
        for r in (a, b):
            for g, m in r.maps:
                keys |= {k[1] for k in mapkeys(m) if k[0] == 's'}
        for k in sorted(keys | set(FILES) | {'CRL', '*other*'}):
            va, vb = values(a, k), values(b, k)
            for v in sorted(set(va) | set(vb), key=repr):
                x, y = va.get(v, 0), vb.get(v, 0)
                d = M.AND(care, M.OR(M.AND(x, M.NOT(y)), M.AND(y, M.NOT(x))))
                ctx.ob('same value for %s' % k, a.tag, d == 0, '%s in one overload only when %s' % (b.sh(v), b.shn(d)),
                       unknown=bool(foreign(v)) or b.unk(d))


def values(r, k):
    acc = {}
    for cond in (r.R0, r.R1):
        for c, v, m in r.entries(k, cond):
            acc[v] = r.M.OR(acc.get(v, 0), c)
    return acc


def c08(ctx):
    ctx.rule(BASE + ' Rule (exception effect analysis): no path through a throwing file system operation leaves the function by exception; a file '
             'whose type cannot be determined counts as missing.')
    for r in begin(ctx):
        M = r.M
        for f in sorted({u[0] for u in r.eng.fs_uses}):
            ctx.site(f)
        n = 0
        for c, v, s in r.thrown:
            if not r.feasible(c):
                continue
            ev = [e for e in s.ev if e[0] == 'throw']
            at = loc(ev[-1][3]) if ev and len(ev[-1]) > 3 else r.tag
            what = '%s(%s)' % (ev[-1][1], r.sh(ev[-1][2])) if ev else r.sh(v)
            ctx.ob('no file system exception escapes', at, False, '%s throws when %s' % (what, r.shn(c)), key='throw|%s|%s' % (at, what))
            n += 1
        ctx.ob('no file system exception escapes', r.tag, n == 0, '%d escaping paths' % n)
        tot = M.OR(r.R0, r.R1)
        ctx.ob('every answer of the file system leads to a return', r.tag, r.covers(1, M.ORs(tot, *[c for c, _, _ in r.thrown])) , 'no exit when %s' % r.shn(M.NOT(tot)))
        for k in FILES:
            bad = M.ANDs(r.R1, r.ftype(FILES[k], 'error'), M.NOT(r.p11(k)))
            ctx.ob('an unreadable file counts as missing', r.tag, not r.feasible(bad), '%s accepted when %s' % (FILES[k], r.shn(bad)), unknown=r.unk(bad))
        for q, cnt in r.eng.opaque_calls.items():
            ctx.ob('no unmodelled exception source', r.tag, False, 'call of %s' % q, unknown=True)


RULES = {'C01': (c01, TUS), 'C02': (c02, TUS), 'C03': (c03, TUS), 'C04': (c04, TUS), 'C05': (c05, TUS), 'C06': (c06, TUS), 'C07': (c07, TUS),
         'C08': (c08, TUS)}
