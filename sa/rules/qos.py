"""QoS compatibility, best-available resolution and type hashes (C40-C50)."""
import itertools

from core import Inconclusive, contains_term, where, loc
from engine import S, I, BEGIN, END, TRUE, FALSE, EMPTY, UNDEF, NULL, NoMerge, Unsupported
from mdd import Mgr

OK, ERROR, BAD_ALLOC, INVALID = 0, 1, 10, 11
C_OK, C_WARN, C_ERR = 0, 1, 2
R = dict(DEF=0, RELIABLE=1, BEST_EFFORT=2, UNKNOWN=3, BA=4)
D = dict(DEF=0, TRANSIENT_LOCAL=1, VOLATILE=2, UNKNOWN=3, BA=4)
L = dict(DEF=0, AUTOMATIC=1, MANUAL_BY_NODE=2, MANUAL_BY_TOPIC=3, UNKNOWN=4, BA=5)
ENUMS = {'reliability': R, 'durability': D, 'liveliness': L}
TIMES = ('deadline', 'liveliness_lease_duration')
POLICIES = tuple(ENUMS) + TIMES
OTHERS = ('history', 'depth', 'lifespan', 'avoid_ros_namespace_conventions')
BA = (9223372036, 854775806)       # RMW_DURATION_INFINITE one nanosecond less: the best-available marker
INF = (9223372036, 854775807)
DEFAULT = (0, 0)
SECMAX, NSECMAX = 2 ** 64 - 1, 10 ** 9 - 1


def enumerators(tu_types, name):
    return ENUMS[name]


def fld(t, *fs):
    for f in fs:
        t = ('fld', t, f)
    return t


def reps(consts, hi, per=2):
    """Representative values: the constants and `per` values in every gap."""
    cs = sorted(c for c in set(consts) if 0 <= c <= hi)
    out = set(cs)
    for a, b in zip([-1] + cs, cs + [hi + 1]):
        out.update(range(a + 1, min(a + 1 + per, b)))
    return sorted(out)


def log_consts(eng, terms):
    """Constants the code compares these terms with."""
    out = {}
    for _, a, b in eng.cmp_log:
        for x, y in ((a, b), (b, a)):
            bx, cx = eng.lin(x)
            by, cy = eng.lin(y)
            if bx in terms and by is None:
                out.setdefault(bx, set()).add(cy - cx)
    return out


# ---------------------------------------------------------------- compatibility
class Compat:
    """The exits of qos_profile_check_compatible, with the policies as finite tables."""

    def __init__(self, ctx, texts=False):
        self.ctx = ctx
        self.fn = ctx.one('rmw_dds_common::qos_profile_check_compatible', 5)
        self.names = ['pub', 'sub', 'compat', 'reason', 'reason_size']
        byref = [self.fn.tu.type(p['t']).k in ('ref', 'rref') for p in self.fn.body['p'][:2]]
        self.P, self.Sb = [('deref', ('sym', n)) if r else ('sym', n) for n, r in zip(self.names, byref)]
        self.texts = texts
        eng0 = self.engine({}, {})
        ctx.run(eng0, self.fn, eng0.entry_args(self.fn, self.names))
        groups, defs = {}, {}
        for pol, en in ENUMS.items():
            ts = (fld(self.P, pol), fld(self.Sb, pol))
            defs[pol] = (ts, tuple(itertools.product(sorted(en.values()), repeat=2)))
        for pol in TIMES:
            for part, spec, hi in (('sec', (0,), SECMAX), ('nsec', (0,), NSECMAX)):
                ts = (fld(self.P, pol, part), fld(self.Sb, pol, part))
                cs = set(spec)
                for v in log_consts(eng0, ts).values():
                    cs |= v
                defs[pol + '.' + part] = (ts, tuple(itertools.product(reps(cs, hi, 2 if part == 'nsec' else 2), repeat=2)))
        for g, (ts, _) in defs.items():
            for t in ts:
                groups[t] = g
        self.eng = eng = self.engine(groups, defs)
        self.M = eng.M
        self.outs = ctx.run(eng, self.fn, eng.entry_args(self.fn, self.names))
        self.spec()

    def engine(self, groups, defs):
        pure = ('rmw_qos_reliability_policy_to_str', 'rmw_qos_durability_policy_to_str', 'rmw_qos_liveliness_policy_to_str')
        eng = self.ctx.engine(exact=getattr(self, 'exact', False), groups=groups, groupdef=defs, pure_fn=lambda f: f.q in pure,
                              ignore_fn=lambda f: f.q in ('rcutils_set_error_state', 'rcutils_reset_error', 'rcutils_set_error_state_with_format_string'))
        if not self.texts:
            eng.call_hooks.append(self.quiet)
            eng.blur = True
        else:
            eng.call_hooks.append(self.lengths)
            eng.write_hooks.append(self.wrote)
        return eng

    def quiet(self, eng, st, fr, fn, obj, args, e):
        """How the reason is written does not matter for the verdict."""
        if fn.n in ('snprintf', 'vsnprintf', 'rcutils_snprintf', 'rcutils_vsnprintf'):
            k = ('fmtok', eng.cur)
            eng.seen_fmt = True
            return [(st, eng.typed(k, fn.ret))]
        if fn.n in ('strnlen', 'strlen'):
            return [(st, ('len', eng.cur))]
        return None

    def lengths(self, eng, st, fr, fn, obj, args, e):
        if fn.n in ('strnlen', 'strlen'):
            vs = [eng.aval(st, a) for a in args]
            if base_of(vs[0])[0] == ('sym', 'reason'):
                s = st.copy()
                r = ('len', len(st.ev))
                eng.event(s, 'length', fn.n, tuple(vs), r)
                return [(s, r)]
        if fn.n in ('memset', 'fill_n', 'strcpy', 'strcat', 'strncpy', 'strncat', 'sprintf', 'memcpy', 'memmove'):
            vs = [eng.aval(st, a) for a in args]
            if base_of(vs[0])[0] == ('sym', 'reason'):
                s = st.copy()
                eng.event(s, 'raw', fn.n, tuple(vs))
                s.mem[('m', ('sym', 'reason'))] = ('bufver', I(len(st.ev)))
                return [(s, vs[0])]
        return None

    def wrote(self, eng, st, loc_, val):
        if loc_[0] == ('m', ('sym', 'reason')):
            eng.event(st, 'wr', loc_[1], val)

    # the documented table, as nodes over the policy tables
    def cells(self, g, pred):
        ts, dom = self.eng.groupdef[g]
        keys = [c for c in dom if pred(*c)]
        return 0 if not keys else 1 if len(keys) == len(dom) else self.M.lit(('cells', g), keys, dom)

    def spec(self):
        M = self.M
        c = self.cells
        self.err = {
            'reliability': c('reliability', lambda p, s: p == R['BEST_EFFORT'] and s == R['RELIABLE']),
            'durability': c('durability', lambda p, s: p == D['VOLATILE'] and s == D['TRANSIENT_LOCAL']),
            'liveliness': c('liveliness', lambda p, s: p == L['AUTOMATIC'] and s == L['MANUAL_BY_TOPIC'])}
        self.missing, self.less = {}, {}
        for t in TIMES:
            sec, ns = t + '.sec', t + '.nsec'
            pd = M.AND(c(sec, lambda p, s: p == 0), c(ns, lambda p, s: p == 0))
            sd = M.AND(c(sec, lambda p, s: s == 0), c(ns, lambda p, s: s == 0))
            lt = M.OR(c(sec, lambda p, s: s < p), M.AND(c(sec, lambda p, s: s == p), c(ns, lambda p, s: s < p)))
            self.missing[t] = M.AND(pd, M.NOT(sd))
            self.less[t] = M.ANDs(M.NOT(pd), M.NOT(sd), lt)
            self.err[t] = M.OR(self.missing[t], self.less[t])
        unk = lambda en, x: x in (en['DEF'], en['UNKNOWN'])
        self.warn = {
            'reliability': c('reliability', lambda p, s: (unk(R, p) and unk(R, s)) or (unk(R, p) and s == R['RELIABLE']) or (p == R['BEST_EFFORT'] and unk(R, s))),
            'durability': c('durability', lambda p, s: (unk(D, p) and unk(D, s)) or (unk(D, p) and s == D['TRANSIENT_LOCAL']) or (p == D['VOLATILE'] and unk(D, s))),
            'liveliness': c('liveliness', lambda p, s: (unk(L, p) and unk(L, s)) or (unk(L, p) and s == L['MANUAL_BY_TOPIC']) or (p == L['AUTOMATIC'] and unk(L, s)))}
        self.anyerr = M.ORs(*self.err.values())
        self.anywarn = M.ORs(*self.warn.values())
        reason, size = ('sym', 'reason'), ('sym', 'reason_size')
        e = self.eng
        self.noreason, self.nosize = e.eq(reason, NULL), e.intcmp('==', size, I(0), True)
        self.nocompat = e.eq(('sym', 'compat'), NULL)
        self.badargs = M.OR(self.nocompat, M.AND(self.noreason, M.NOT(self.nosize)))

    def known(self, n):
        """No atom outside the policies, the arguments and the results of formatting."""
        for a in self.M.support(n):
            if a[0] == 'cells' and a[1] in self.eng.groupdef:
                continue
            if a[0] in ('val', 'cmp') and a[1][0] in ('sym', 'fmtok', 'fmtres'):
                continue
            if a[0] == 'val' and a[1][0] == 'app':
                continue
            return False
        return True

    def verdicts(self):
        """[(condition, verdict term)] of the exits that return OK."""
        M, eng = self.M, self.eng
        for k, s, v in self.outs:
            if k != 'r':
                continue
            for g, code in eng.alts(v):
                c = M.AND(s.cond, g)
                if c == 0 or code != I(OK):
                    continue
                val = eng.prune(eng.peek(s, (('m', ('sym', 'compat')), ())), c)
                for g2, x in eng.alts(val):
                    c2 = M.AND(c, g2)
                    if c2:
                        yield c2, x

    def require(self, rule, cond, want, detail):
        """cond implies want, with a readable counterexample."""
        M = self.M
        bad = M.AND(cond, M.NOT(want))
        w = where(self.fn)
        if bad == 0:
            return self.ctx.ob(rule, w, True)
        self.ctx.ob(rule, w, False, '%s: %s' % (detail, self.example(bad)), unknown=not self.known(bad))

    def example(self, n):
        cs = self.M.cubes(n, 1)
        out = []
        for a, k in cs[0] if cs else []:
            if a[0] == 'cells' and a[1] in self.eng.groupdef:
                dom = self.eng.groupdef[a[1]][1]
                if isinstance(k, tuple) and k and k[0] == 'not':
                    k = [c for c in dom if c not in k[1]][0]
                out.append('%s publisher %s subscription %s' % (a[1], k[0], k[1]))
            elif a[0] == 'val' and a[1][0] == 'sym':
                out.append(self.eng.showatom(a, k))
        return ', '.join(out) or 'always'


TABLE = ('qos_profile_check_compatible is reduced to its guarded exits over finite tables: all pairs of enumerators per policy, '
         'and for the durations all order types of (publisher, subscription) relative to each other and to every constant the code compares with. ')


def verdict_known(C, x):
    if x[0] != 'i' or x[1] not in (C_OK, C_WARN, C_ERR):
        C.ctx.ob('verdict is one of OK, WARNING, ERROR', where(C.fn), False, 'the verdict written is %s' % C.eng.show(x)[:200], unknown=x[0] != 'i' and x[0] != 'undef' and x[0] != 'deref')
        return False
    return True


ERRORS = (Unsupported, NoMerge, Inconclusive, RecursionError, KeyError, TypeError, IndexError, AttributeError, ValueError, AssertionError)


KEPT = ('rejected arguments: the reason is left alone', 'rejected arguments: the verdict is left alone', 'missing arguments are rejected',
        'a failed append is reported', 'failures are RMW_RET_ERROR')


def with_instances(rule, fallback, decides):
    """The symbolic rule; where it has no answer, explicit instances are tried for a definite violation."""
    def run(ctx):
        failed = None
        try:
            rule(ctx)
        except ERRORS as ex:
            failed = ex
        definite = [o for o in ctx.obs if not o.ok and not o.unknown and (not decides or o.rule in KEPT)]
        if definite:
            return
        if failed is None and not any(not o.ok for o in ctx.obs) and not ctx.inconclusive:
            return
        n = len(ctx.inconclusive)
        before = ctx.obs
        if decides:
            # the finite tables approximate the content of the buffer: the replay of explicit cases has the last word
            ctx.obs = [o for o in ctx.obs if o.ok]
        try:
            hit = fallback(ctx)
        except ERRORS as ex:
            if failed is None:
                failed = ex
            if decides:
                raise failed
            ctx.obs = before
            return
        del ctx.inconclusive[n:]
        if hit:
            return
        if decides and not n:
            ctx.ob('explicit profiles and buffer sizes', where(ctx.one('rmw_dds_common::qos_profile_check_compatible', 5)), True)
            ctx.assume('the buffer handling has no general rule: it was instantiated on explicit profiles and buffer sizes')
        elif failed is not None:
            raise failed
    return run


def instances(pid):
    def go(ctx):
        from rules import qosconc
        return qosconc.reports(ctx) if pid == 'C43' else qosconc.verdicts(ctx, pid)
    return go


def c40(ctx):
    ctx.rule(TABLE + 'Every exit with verdict other than ERROR must exclude the three enumerated errors; ERROR requires one of the five errors; '
             'valid arguments are never rejected.')
    C = Compat(ctx)
    M = C.M
    seen = 0
    for c, x in C.verdicts():
        seen = M.OR(seen, c)
        if not verdict_known(C, x):
            continue
        for pol in C.err:
            if x != I(C_ERR):
                C.require('incompatible %s is an error' % pol, c, M.NOT(C.err[pol]), 'verdict %d although %s is incompatible' % (x[1], pol))
        if x == I(C_ERR):
            C.require('an error has a reason', c, C.anyerr, 'ERROR although every policy is compatible')
    total(ctx, C, seen)
    ctx.assume('policy values are among the declared enumerators')


def total(ctx, C, seen):
    M = C.M
    for k, s, v in C.outs:
        if k != 'r':
            C.require('never throws', s.cond, 0, 'an exception leaves the check')
            continue
        for g, code in C.eng.alts(v):
            c = M.AND(s.cond, g)
            if c and code == I(INVALID):
                C.require('valid arguments are accepted', c, C.badargs, 'INVALID_ARGUMENT for valid arguments')
            elif c and code != I(OK) and not any(a[0] in ('val', 'cmp') and a[1][0] in ('fmtok', 'fmtres', 'res') for a in M.support(c)):
                C.require('valid arguments get a verdict', c, C.badargs, 'returns %s' % C.eng.show(code)[:80])


def c41(ctx):
    ctx.rule(TABLE + 'Deadline and lease duration: an error exactly if the publisher has none (0, 0) and the subscription has one, or both have one and the '
             'subscription\'s is lexicographically (sec, nsec) smaller.')
    C = Compat(ctx)
    M = C.M
    for c, x in C.verdicts():
        if not verdict_known(C, x):
            continue
        if x == I(C_ERR):
            C.require('no error for compatible durations', M.ANDs(c, *[M.NOT(C.err[p]) for p in ENUMS]), M.OR(C.err[TIMES[0]], C.err[TIMES[1]]),
                      'ERROR although deadline and lease duration are compatible')
            continue
        for t in TIMES:
            C.require('missing %s is an error' % t, c, M.NOT(C.missing[t]), 'verdict %d although only the subscription has a %s' % (x[1], t))
            C.require('shorter %s is an error' % t, c, M.NOT(C.less[t]), 'verdict %d although the subscription\'s %s is shorter' % (x[1], t))
    ctx.assume('durations are normalised: the nanosecond part is below one second')


def c42(ctx):
    ctx.rule(TABLE + 'Without an error the verdict is WARNING exactly when one of the nine warning entries (unknown or system default values) applies, OK otherwise; '
             'an error is never downgraded.')
    C = Compat(ctx)
    M = C.M
    for c, x in C.verdicts():
        if not verdict_known(C, x):
            continue
        if x == I(C_WARN):
            C.require('a warning is never given for an error', c, M.NOT(C.anyerr), 'WARNING although a policy is incompatible')
            C.require('a warning has a reason', c, C.anywarn, 'WARNING although every policy is known to be compatible')
        elif x == I(C_OK):
            for p in C.warn:
                C.require('unknown %s is a warning' % p, M.AND(c, M.NOT(C.anyerr)), M.NOT(C.warn[p]), 'OK although %s may be incompatible' % p)
    ctx.assume('policy values are among the declared enumerators')


def policy_of(text):
    t = text.lower()
    for p, ks in (('liveliness_lease_duration', ('lease',)), ('deadline', ('deadline',)), ('liveliness', ('liveliness', 'manual', 'automatic')),
                  ('durability', ('durab', 'volatile', 'transient')), ('reliability', ('reliab', 'best effort'))):
        if any(k in t for k in ks):
            return p
    return None


class Reason:
    """One exit of the check, replayed over the events that touch the reason buffer."""

    def __init__(self, C, cond, evs):
        self.C, self.cond, self.eng, self.M = C, cond, C.eng, C.M
        self.buf = self.M.ANDs(cond, self.M.NOT(C.noreason), self.M.NOT(C.nosize))
        self.len, self.cleared, self.text, self.results = None, False, [], []
        self.touched = None
        for ev in evs:
            getattr(self, 'ev_' + ev[0], self.other)(ev)

    def bad(self, rule, cond, detail, ev=None):
        self.C.ctx.ob(rule, loc(ev[-1]) if ev else where(self.C.fn), False, detail + ': ' + self.C.example(cond), unknown=not self.C.known(cond))

    def good(self, rule, ev):
        self.C.ctx.ob(rule, loc(ev[-1]), True)

    def other(self, ev):
        if contains_term(ev, lambda t: t == ('sym', 'reason')):
            raise Inconclusive('the reason buffer is handled by %s at %s' % (ev[1] if ev[0] == 'call' else ev[0], loc(ev[-1])))

    def present(self, ev):
        """The buffer is only touched if there is one."""
        none = self.M.AND(self.cond, self.M.OR(self.C.noreason, self.C.nosize))
        if none:
            self.bad('the buffer is touched only if one was given', none, 'reason is written without a buffer', ev)
        else:
            self.good('the buffer is touched only if one was given', ev)

    def ev_wr(self, ev):
        _, path, val, _ = ev
        self.present(ev)
        size = ('sym', 'reason_size')
        if path == () and val[0] == 'i':
            path = (('at', I(0)),)
        if len(path) != 1 or path[0][0] != 'at':
            raise Inconclusive('reason written as a whole at %s' % loc(ev[-1]))
        i = path[0][1]
        bi, ci = self.eng.lin(i)
        if (bi == size and ci >= 0) or (bi is None and ci < 0):
            self.bad('writes stay inside the buffer', self.cond, 'writes reason[%s]' % self.eng.show(i), ev)
        elif i == I(0) and val == I(0):
            if self.text:
                self.bad('earlier messages are kept', self.cond, 'the reason is cleared after a message', ev)
            self.cleared = True
        elif not (bi == size and ci == -1 and val == I(0)) and not (i == self.len and val == I(0)):
            raise Inconclusive('reason[%s] is written at %s' % (self.eng.show(i), loc(ev[-1])))

    def ev_raw(self, ev):
        _, fn, vs, _ = ev
        size = ('sym', 'reason_size')
        b, off = base_of(vs[0])
        if fn == 'memset' and off == I(0) and vs[1] == I(0):
            if vs[2] == size or vs[2] == I(1):
                self.present_or_empty(ev, vs[2])
                self.cleared, self.len = True, None
                return
        if fn in ('strcpy', 'strcat', 'sprintf'):
            self.bad('writes stay inside the buffer', self.cond, '%s writes without regard to reason_size' % fn, ev)
            return
        if fn == 'strncat' and vs[2] in (size, ('op', '-', size, self.len)):
            self.bad('writes stay inside the buffer', self.cond, 'strncat may write past the end of the buffer', ev)
            return
        raise Inconclusive('reason is written by %s at %s' % (fn, loc(ev[-1])))

    def present_or_empty(self, ev, n):
        if n == I(1):
            return self.present(ev)

    def ev_length(self, ev):
        _, fn, vs, r, _ = ev
        size = ('sym', 'reason_size')
        b, off = base_of(vs[0])
        if off != I(0) or (fn == 'strnlen' and vs[1] not in (size, ('add', size, I(-1)))):
            raise Inconclusive('length of part of the reason at %s' % loc(ev[-1]))
        if fn == 'strlen':
            self.present(ev)
        self.len = r

    def ev_fmt(self, ev):
        _, dst, n, fmt, rest, res, _ = ev
        eng, M, size = self.eng, self.M, ('sym', 'reason_size')
        if dst[0] == 'gv' or n[0] == 'gv':
            raise Inconclusive('several targets at %s' % loc(ev[-1]))
        b, off = base_of(dst)
        if b != ('sym', 'reason'):
            raise Inconclusive('text is composed elsewhere at %s' % loc(ev[-1]))
        self.present(ev)
        texts = [(g, x) for g, x in eng.alts(fmt) if M.AND(g, self.cond)]
        if len(texts) != 1 or texts[0][1][0] != 'cptr' or texts[0][1][1][0] != 's':
            raise Inconclusive('format %s at %s' % (eng.show(fmt)[:100], loc(ev[-1])))
        text = texts[0][1][1][1]
        rule = 'messages are appended within the room that is left'
        bn, cn = eng.lin(n)
        if text == '' and off == I(0) and n == size:
            self.cleared = True
        elif off == I(0):
            if self.text:
                self.bad('earlier messages are kept', self.cond, 'a message overwrites the ones before it', ev)
            if n == size:
                self.good(rule, ev)
            elif bn == size and cn > 0:
                self.bad(rule, self.cond, 'may write past the end of the buffer', ev)
            elif bn is None:
                self.bad(rule, self.cond, 'writes up to %d bytes whatever the size of the buffer' % cn, ev)
            else:
                raise Inconclusive('room %s at %s' % (eng.show(n), loc(ev[-1])))
        elif off[0] == 'len':
            if off != self.len:
                self.bad('earlier messages are kept', self.cond, 'a message is written at an outdated offset', ev)
            if bn == ('op', '-', size, off) and cn == 0:
                self.good(rule, ev)
            elif n == size or bn is None or (bn == size and cn >= 0) or (bn == ('op', '-', size, off) and cn > 0):
                self.bad(rule, self.cond, 'may write past the end of the buffer', ev)
            else:
                raise Inconclusive('room %s at %s' % (eng.show(n), loc(ev[-1])))
        else:
            raise Inconclusive('offset %s at %s' % (eng.show(off)[:100], loc(ev[-1])))
        self.len = None
        self.results.append(res)
        self.add(text, rest, ev)

    def add(self, text, rest, ev):
        import re
        conv = re.findall(r'%[-#0 +]*[0-9*.]*[a-zA-Z]*', text.replace('%%', ''))
        if any(c != '%s' for c in conv):
            raise Inconclusive('conversion %s at %s' % (conv, loc(ev[-1])))
        if len(rest) < len(conv):
            self.bad('every conversion has its argument', self.cond, '%d conversions, %d arguments' % (len(conv), len(rest)), ev)
            return
        parts = text.split('%s')
        self.text.append(parts[0])
        for a, p in zip(rest, parts[1:]):
            lits = [x for g, x in self.eng.alts(a) if self.M.AND(g, self.cond)]
            if len(lits) == 1 and lits[0][0] == 'cptr' and lits[0][1][0] == 's' and lits[0][1][1] != 'unknown':
                self.text.append(lits[0][1][1])
            else:
                self.text.append((a, ev))
            self.text.append(p)

    def messages(self):
        """[(text, [(argument, text before it, event)])] of the messages appended."""
        cur, args, out = '', [], []
        for x in self.text:
            if isinstance(x, tuple):
                args.append((x[0], cur, x[1]))
                cur += '<>'
                continue
            while ';' in x:
                h, _, x = x.partition(';')
                out.append(((cur + h).strip(), args))
                cur, args = '', []
            cur += x
        if cur.strip():
            out.append((cur.strip(), args))
        return out


FN = {'reliability': 'rmw_qos_reliability_policy_to_str', 'durability': 'rmw_qos_durability_policy_to_str',
      'liveliness': 'rmw_qos_liveliness_policy_to_str'}


def expand(eng, cond, evs):
    """Split a path so that every formatted write has one target, room and format."""
    for i, ev in enumerate(evs):
        if ev[0] != 'fmt':
            continue
        for j in (1, 2, 3):
            if ev[j][0] == 'gv':
                for g, x in eng.alts(ev[j]):
                    c = eng.M.AND(cond, g)
                    if c:
                        yield from expand(eng, c, evs[:i] + (ev[:j] + (x,) + ev[j + 1:],) + evs[i + 1:])
                return
    yield cond, evs


def c43(ctx):
    ctx.rule(TABLE + 'On every path the events that touch the reason buffer are replayed in order: cleared first, every message formatted at the current '
             'end with exactly the room left, only if a buffer was given; the messages on the path must be exactly those of the policies that are '
             'incompatible (or uncertain) under the path condition, with non-null arguments of the right endpoint; truncation is not an error.')
    C = Compat(ctx, texts=True)
    eng, M, w = C.eng, C.M, where(C.fn)
    for k, s, v in C.outs:
        if k != 'r':
            continue
        touched = [e for e in s.ev if e[0] in ('wr', 'raw', 'fmt', 'length')]
        for g, code in eng.alts(v):
            c = M.AND(s.cond, g)
            if c == 0:
                continue
            if code == I(INVALID):
                ctx.ob('rejected arguments: the reason is left alone', w, not touched, 'the reason is written before the arguments are rejected')
                val = eng.prune(eng.peek(s, (('m', ('sym', 'compat')), ())), c)
                ctx.ob('rejected arguments: the verdict is left alone', w, val == ('deref', ('sym', 'compat')), 'the verdict is written before the arguments are rejected')
                continue
            if code[0] != 'i':
                raise Inconclusive('return value %s' % eng.show(code)[:200])
            C.require('missing arguments are rejected', c, M.NOT(C.badargs), 'accepted')
            for c, evs in expand(eng, c, s.ev):
                one_path(ctx, C, c, evs, code, w)
    ctx.assume('rcutils_vsnprintf and vsnprintf write at most the given number of bytes, terminate the text and return a negative value on failure only')


def one_path(ctx, C, c, evs, code, w):
    eng, M = C.eng, C.M
    rp = Reason(C, c, evs)
    neg = M.ORs(*[eng.intcmp('<', r, I(0)) for r in rp.results])
    if code == I(OK):
        if M.AND(c, neg):
            rp.bad('a failed append is reported', M.AND(c, neg), 'returns OK although formatting failed')
        report_texts(C, rp, w)
    else:
        if code != I(ERROR):
            ctx.ob('failures are RMW_RET_ERROR', w, False, 'returns %d' % code[1])
        C.require('only a failed append is an error', c, neg, 'returns %d although no formatting failed (truncation is not an error)' % code[1])


def report_texts(C, rp, w):
    ctx, eng, M = C.ctx, C.eng, C.M
    if rp.buf == 0:
        return
    if not rp.cleared:
        rp.bad('the reason starts out empty', rp.buf, 'earlier content of the buffer is kept')
    have = {'ERROR': {}, 'WARNING': {}}
    for text, args in rp.messages():
        kind = text.split(':')[0]
        pol = policy_of(text)
        if kind not in have:
            ctx.ob('messages say ERROR or WARNING', w, False, 'message %r' % text)
            continue
        if pol is None:
            raise Inconclusive('message %r' % text)
        if pol in have[kind]:
            rp.bad('one message per problem', rp.buf, 'two messages about %s' % pol)
        have[kind][pol] = text
        for a, before, ev in args:
            b = before.lower()
            side = C.P if b.rfind('publisher') > b.rfind('subscription') else C.Sb
            want = ('app', FN.get(pol), fld(side, pol))
            for g, x in eng.alts(a):
                c2 = M.AND(rp.buf, g)
                if c2 == 0 or x == ('cptr', S('unknown')):
                    continue
                if x == NULL or x == I(0):
                    rp.bad('no null string is formatted', c2, 'null passed for %%s in %r' % text, ev)
                elif x[0] == 'app':
                    null = M.AND(c2, eng.eq(x, NULL))
                    if null:
                        rp.bad('no null string is formatted', null, 'null passed for %%s in %r' % text, ev)
                    if x != want:
                        ctx.ob('messages name the right value', loc(ev[-1]), False, 'prints %s in %r' % (eng.show(x), text))
                elif x[0] == 'cptr':
                    continue
                else:
                    raise Inconclusive('argument %s at %s' % (eng.show(x)[:100], loc(ev[-1])))
    for pol in POLICIES:
        t = have['ERROR'].get(pol)
        if t is None:
            C.require('every error is explained', rp.buf, M.NOT(C.err[pol]), 'no message about %s' % pol)
        else:
            node = C.err[pol]
            if pol in TIMES and 'less' in t.lower():
                node = C.less[pol]
            elif pol in TIMES and 'not' in t.lower():
                node = C.missing[pol]
            C.require('an error message is true', rp.buf, node, 'says %r' % t)
        if pol in C.warn:
            t = have['WARNING'].get(pol)
            node = M.AND(C.warn[pol], M.NOT(C.anyerr))
            if t is None:
                C.require('every warning is explained', rp.buf, M.NOT(node), 'no message about %s' % pol)
            else:
                C.require('a warning message is true', rp.buf, node, 'says %r' % t)


# ---------------------------------------------------------- best available
FUN = {'sub': 'rmw_dds_common::qos_profile_get_best_available_for_subscription',
       'pub': 'rmw_dds_common::qos_profile_get_best_available_for_publisher'}


def nest(path, v, d=None):
    d = {} if d is None else d
    for p in path[:-1]:
        d = d.setdefault(p, {})
    d[path[-1]] = v
    return d


class Best:
    """The summary of a best-available function: the profile after an OK exit, as closed forms over the endpoint array."""

    def __init__(self, ctx, role):
        self.ctx, self.role = ctx, role
        self.fn = ctx.one(FUN[role], 2)
        self.eng = eng = ctx.engine(ignore_fn=lambda f: f.q.startswith('rcutils_set_error') or f.q == 'rcutils_reset_error')
        self.outs = ctx.run(eng, self.fn, eng.entry_args(self.fn, ['info', 'profile']))
        self.info, self.prof = ('deref', ('sym', 'info')), ('deref', ('sym', 'profile'))
        self.arr, self.size = fld(self.info, 'info_array'), fld(self.info, 'size')
        self.null = eng.M.OR(eng.eq(('sym', 'info'), NULL), eng.eq(('sym', 'profile'), NULL))
        self.w = where(self.fn)
        self.ok = []
        M = eng.M
        for k, s, v in self.outs:
            if k != 'r':
                ctx.ob('never throws', self.w, False, 'an exception leaves the function')
                continue
            for e in s.ev:
                raise Inconclusive('%s %s at %s' % (e[0], e[1], loc(e[-1])))
            for g, code in eng.alts(v):
                c = M.AND(s.cond, g)
                if c == 0:
                    continue
                out = eng.prune(eng.peek(s, (('m', ('sym', 'profile')), ())), c)
                if code == I(INVALID):
                    self.holds('valid arguments are accepted', c, self.null, 'INVALID_ARGUMENT for valid arguments')
                    c2 = M.AND(c, M.NOT(eng.eq(('sym', 'profile'), NULL)))
                    if c2:
                        same = out == self.prof or all(eng.prune(eng.sel(out, ('f', f)), c2) == fld(self.prof, f) for f in POLICIES + OTHERS)
                        ctx.ob('rejected arguments: the profile is left alone', self.w, same, 'the profile is changed before the arguments are rejected')
                elif code == I(OK):
                    self.holds('null arguments are rejected', c, M.NOT(self.null), 'null arguments accepted')
                    for root in s.mem:
                        if root[0] == 'm' and root[1] != ('sym', 'profile') and s.mem[root] != eng.initial(root):
                            ctx.ob('the endpoints are not changed', self.w, False, 'writes %s' % eng.show(root[1])[:120])
                    self.ok.append((c, out))
                else:
                    ctx.ob('valid arguments are resolved', self.w, False, 'returns %s' % eng.show(code)[:80])

    def holds(self, rule, c, want, detail):
        M = self.eng.M
        bad = M.AND(c, M.NOT(want))
        self.ctx.ob(rule, self.w, bad == 0, detail + ': ' + self.eng.shownode(bad) if bad else '',
                    unknown=bool(bad) and any(a[0] != 'val' or a[1][0] != 'sym' for a in M.support(bad)))

    def field(self, name):
        """The value of one profile field after an OK return, guarded by the exit conditions."""
        eng = self.eng
        pairs = []
        notnull = eng.M.NOT(self.null)
        for c, out in self.ok:
            pairs.append((eng.M.constrain(c, notnull), eng.sel(out, ('f', name))))
        return eng.mkgv(pairs, 400)


def time_dom(eng, arr_leaf, extra, per):
    return arr_leaf


def domains(B, leaves, per):
    """Representative values of element and profile fields: {path: values}."""
    eng = B.eng
    consts = {}
    for _, a, b in eng.cmp_log:
        for x, y in ((a, b), (b, a)):
            bx, cx = eng.lin(x)
            by, cy = eng.lin(y)
            if by is None and bx is not None and bx[0] == 'fld' and bx[2] in ('sec', 'nsec'):
                consts.setdefault(bx[2], set()).add(cy - cx)
    dom = {}
    for p in leaves:
        if p[-1] in ENUMS:
            dom[p] = sorted(ENUMS[p[-1]].values())
        elif p[-1] == 'sec':
            dom[p] = reps({0, BA[0]} | consts.get('sec', set()), SECMAX, per)
        elif p[-1] == 'nsec':
            dom[p] = reps({0, BA[1], INF[1]} | consts.get('nsec', set()), NSECMAX, per)
        else:
            raise Inconclusive('the result depends on %s of the endpoints' % '.'.join(p))
    return dom


def merge_dict(a, b):
    for k, v in b.items():
        if k in a and isinstance(v, dict):
            merge_dict(a[k], v)
        else:
            a[k] = v
    return a


def assign(dom):
    """Every combination of values: [(printable, nested dict)]."""
    ps = sorted(dom)
    out = []
    for vs in itertools.product(*[dom[p] for p in ps]):
        d = {}
        for p, v in zip(ps, vs):
            merge_dict(d, nest_(p, v))
        out.append((tuple(('.'.join(p[1:] if p[0] == 'qos_profile' else p), v) for p, v in zip(ps, vs)), d))
    return out


def nest_(p, v):
    for k in reversed(p):
        v = {k: v}
    return v


def tm(d):
    return (d['sec'], d['nsec'])


def want(role, pol):
    """(initial register, step, result) of the documented rule."""
    if pol in TIMES:
        def step(reg, el):
            t = tm(el['qos_profile'][pol])
            if t == DEFAULT:
                return reg
            return t if reg is None else max(reg, t) if role == 'sub' else min(reg, t)
        # values above "infinite" are equivalent to it for a publisher
        return None, step, lambda reg: DEFAULT if reg is None else reg if role == 'sub' else min(reg, INF)
    if role == 'pub' and pol == 'liveliness':
        return False, lambda reg, el: reg or el['qos_profile'][pol] == L['MANUAL_BY_TOPIC'], lambda reg: L['MANUAL_BY_TOPIC'] if reg else L['AUTOMATIC']
    if role == 'pub':
        v = R['RELIABLE'] if pol == 'reliability' else D['TRANSIENT_LOCAL']
        return None, lambda reg, el: None, lambda reg: v
    hi, lo = {'reliability': (R['RELIABLE'], R['BEST_EFFORT']), 'durability': (D['TRANSIENT_LOCAL'], D['VOLATILE']),
              'liveliness': (L['MANUAL_BY_TOPIC'], L['AUTOMATIC'])}[pol]
    return True, lambda reg, el: reg and el['qos_profile'][pol] == hi, lambda reg: hi if reg else lo


def leaf_paths(eng, terms, root):
    """Field paths of `root` that occur in the terms."""
    import concrete
    out = set()

    def visit(x):
        p, y = [], x
        while y[0] == 'fld':
            p.append(y[2])
            y = y[1]
        if y == root:
            if x[0] == 'fld':
                out.add(tuple(reversed(p)))
            return True
        return False
    concrete.subterms(eng, ('gv', tuple((1, t) for t in terms)), set(), visit)
    return out


def compatible(role, pol):
    """(initial register, step, clash): is the resolved value compatible with every endpoint seen?"""
    if pol in TIMES:
        pick = max if role == 'sub' else min

        def step(reg, el):
            t = tm(el['qos_profile'][pol])
            return t if reg is None else pick(reg, t)

        def clash(reg, v):
            if reg is None or (v >= reg or v == DEFAULT if role == 'sub' else DEFAULT != v <= reg):
                return None
            return 'incompatible with an endpoint that has %s' % (reg,)
        return None, step, clash
    bad = {'reliability': (R['BEST_EFFORT'], R['RELIABLE']), 'durability': (D['VOLATILE'], D['TRANSIENT_LOCAL']),
           'liveliness': (L['AUTOMATIC'], L['MANUAL_BY_TOPIC'])}[pol]

    def clash(reg, v):
        for e in reg:
            if ((e, v) if role == 'sub' else (v, e)) == bad:
                return 'incompatible with an endpoint that has %s' % e
        return None
    return frozenset(), lambda reg, el: reg | {el['qos_profile'][pol]}, clash


def split_times(leaves):
    whole = {p for p in leaves if p[-1] in TIMES}
    return (leaves - whole) | {p + (x,) for p in whole for x in ('sec', 'nsec')}


def register_check(eng, mach, terms, B, args, verdict, pol):
    import concrete
    cache = {}

    def check(st, reg):
        env = mach.leaf(st)
        memo = cache.setdefault(st, {})

        def ev(d):
            key = concrete.freeze(d)
            if key not in memo:
                e = concrete.Eval(eng, lambda t: d if t == B.prof else env.get(t) if t in env else args(t))
                try:
                    memo[key] = tuple(e.term(t) for t in terms)
                except concrete.Undefined as ex:
                    raise Inconclusive('%s after resolution: %s' % (pol, ex))
            return memo[key]
        return verdict(ev, reg)
    return check


def refute(ctx, B, pol, terms, isseq, isel, own, init, step, verdict, args, why):
    """The summary is outside the automaton's reach: look for a short counterexample, say nothing otherwise."""
    import concrete
    eng = B.eng
    leaves = set()
    inner = set()

    def visit(x):
        p, y = [], x
        if x[0] in ('any', 'count', 'fi') and isinstance(x[2], int):
            concrete.subterms(eng, x[2], inner, visit)
        while y[0] == 'fld':
            p.append(y[2])
            y = y[1]
        if y[0] == 'elem' and y[1] == B.arr and x[0] == 'fld':
            leaves.add(tuple(reversed(p)))
        return False
    concrete.subterms(eng, ('gv', tuple((1, t) for t in terms)), set(), visit)
    leaves = split_times({p for p in leaves if p[-1] in ENUMS or p[-1] in TIMES or p[-1] in ('sec', 'nsec')} | {('qos_profile',) + o for o in own})
    dom = domains(B, leaves, 1)
    base = {p: v[0] for p, v in dom.items()}
    els = [({**base, p: v}) for p in sorted(dom) for v in dom[p] if p[1] == own[0][0] or len(p) < 2 or v != base[p]]
    els.sort(key=lambda e: [e[p] == base[p] for p in sorted(e) if p[1] == own[0][0]])
    els = [(tuple(('.'.join(p[1:]), v) for p, v in sorted(e.items()) if p[1] == own[0][0]), build(e)) for e in els[:14]]
    isnode = lambda t: None
    for n in range(4):
        for seq in itertools.product(els, repeat=n):
            vals = [e[1] for e in seq]
            reg = init
            for e in vals:
                reg = step(reg, e)

            def ev(d):
                se = concrete.SeqEval(eng, vals, isseq, B.arr, B.size, lambda t: d if t == B.prof else args(t))
                return tuple(se.term(t) for t in terms)
            try:
                bad = verdict(ev, reg)
            except concrete.OutOfBounds:
                bad = 'an endpoint outside of the array is read'
            except concrete.Undefined as ex:
                raise Inconclusive('%s: %s, %s' % (pol, why, ex))
            if bad:
                ctx.ob('%s is resolved as documented' % pol, B.w, False, '%s with endpoints [%s]' % (bad, '; '.join(', '.join('%s=%s' % x for x in e[0]) for e in seq)))
                return
    mach = concrete.Machine(eng, terms, isseq, isel, B.size, cap=270)
    few = [e for e in els if True][:4]
    bad, trace, n = concrete.explore(mach, few, init, step, register_check(eng, mach, terms, B, args, verdict, pol), limit=120000)
    if bad:
        ctx.ob('%s is resolved as documented' % pol, B.w, False, '%s with %d endpoints' % (bad, len(trace)))
        return
    raise Inconclusive('%s: %s' % (pol, why))


def build(e):
    d = {}
    for p, v in e.items():
        merge_dict(d, nest_(p, v))
    return d


def resolution(ctx, role, pols, unchanged, compat=False):
    """unchanged=False: the documented value for BEST_AVAILABLE; True: everything else is left alone."""
    import concrete
    B = Best(ctx, role)
    eng = B.eng
    if not B.ok:
        raise Inconclusive('%s never returns OK' % B.fn.q)
    for pol in pols:
        T = B.field(pol)
        parts = ('sec', 'nsec') if pol in TIMES else (None,)
        terms = [T if p is None else eng.sel(T, ('f', p)) for p in parts]
        isel = lambda t: t[0] == 'elem' and t[1] == B.arr
        isseq = lambda V: V == ('range', B.size) or V == B.arr
        own = [(pol, p) if p else (pol,) for p in parts]
        isba = (lambda d: tm(d[pol]) == BA) if pol in TIMES else (lambda d: d[pol] == ENUMS[pol]['BA'])
        pdom = domains(B, split_times(leaf_paths(eng, terms, B.prof) | set(own)), 1)
        if pol in TIMES:
            for p in pdom:
                if p[0] == pol:
                    pdom[p] = sorted(set(pdom[p]) | {BA[0] if p[-1] == 'sec' else BA[1]})
        todo = [(n, d) for n, d in assign(pdom) if isba(d) != unchanged]
        init, step, result = (None, lambda reg, el: None, None) if unchanged else want(role, pol)
        if compat:
            init, step, clash = compatible(role, pol)

        def verdict(ev, reg):
            exp = None if unchanged or compat else result(reg)
            for n, d in todo:
                got = ev(d)
                if compat:
                    why = clash(reg, got if pol in TIMES else got[0])
                    if why:
                        return '%s becomes %s, %s' % (pol, got, why)
                    continue
                e = (tm(d[pol]) if pol in TIMES else d[pol]) if unchanged else exp
                e = e if isinstance(e, tuple) else (e,)
                if got != e:
                    return '%s becomes %s instead of %s (requested: %s)' % (pol, got, e, ', '.join('%s=%s' % x for x in n))
            return None
        args = lambda t: 1 if t == ('sym', 'info') or t == ('sym', 'profile') else None
        try:
            mach = concrete.Machine(eng, terms, isseq, isel, B.size)
        except concrete.Unsupported as ex:
            try:
                refute(ctx, B, pol, terms, isseq, isel, own, init, step, verdict, args, ex)
            except (Inconclusive, concrete.Unsupported) as ex2:
                ctx.ob('%s is resolved as documented' % pol, B.w, False, str(ex2), unknown=True)
            continue
        eleaves = split_times(set(mach.leaves) | {('qos_profile',) + o for o in own})
        per = 3 if ctx.thorough else 2
        if len(eleaves) > 2:
            per = 1
        els = assign(domains(B, eleaves, per))
        if compat and pol in TIMES:
            els = [e for e in els if tm(e[1]['qos_profile'][pol]) != DEFAULT]
        if len(els) > 3000:
            raise Inconclusive('%s depends on too much: %s' % (pol, sorted('.'.join(p) for p in eleaves)))
        bad, trace, n = concrete.explore(mach, els, init, step, register_check(eng, mach, terms, B, args, verdict, pol))
        ctx.site('%s: %d register states, %d endpoint values, %d requested values' % (pol, n, len(els), len(todo)))
        rule = '%s is compatible with every endpoint' % pol if compat else '%s keeps a concrete request' % pol if unchanged else '%s is resolved as documented' % pol
        ctx.ob(rule, B.w, bad is None, '%s with endpoints [%s]' % (bad, '; '.join(', '.join('%s=%s' % x for x in t) for t in trace or [])))
    return B


AUTO = ('The resolution is summarised as closed forms over the endpoint array (counts, quantifiers, folds); these are run as register automata against the '
        'documented rule over all reachable register states, so for arrays of every length; the element values cover all enumerators and all order types of '
        'durations relative to the constants in the code. ')


def c44(ctx):
    ctx.rule(AUTO + 'Subscription: RELIABLE / TRANSIENT_LOCAL / MANUAL_BY_TOPIC if all publishers are, the lower level otherwise; default duration if all have it, '
             'otherwise the largest non-default one.')
    resolution(ctx, 'sub', POLICIES, False)


def c45(ctx):
    ctx.rule(AUTO + 'Publisher: always RELIABLE and TRANSIENT_LOCAL; MANUAL_BY_TOPIC if any subscription is; default duration if all have it, otherwise the '
             'smallest non-default one.')
    resolution(ctx, 'pub', POLICIES, False)


def c46(ctx):
    ctx.rule(AUTO + 'A policy that is not BEST_AVAILABLE keeps its value, and history, depth, lifespan and the naming flag are never written; rejected '
             'arguments leave everything alone.')
    for role in ('sub', 'pub'):
        B = resolution(ctx, role, POLICIES, True)
        for f in OTHERS:
            v = B.field(f)
            ctx.ob('%s is never changed' % f, B.w, v == fld(B.prof, f), '%s becomes %s' % (f, B.eng.show(v)[:200]))


def c49(ctx):
    ctx.rule(AUTO + 'The resolved reliability, durability and liveliness are compatible with every endpoint in the array; so are the resolved deadline and lease '
             'duration if every endpoint has a non-default one.')
    for role in ('sub', 'pub'):
        resolution(ctx, role, POLICIES, False, True)


# ------------------------------------------------------ topic variants, services
def quiet_errors(f):
    return f.q.startswith('rcutils_set_error') or f.q == 'rcutils_reset_error'


def ba_node(eng, prof):
    """Some policy of the profile is BEST_AVAILABLE."""
    M = eng.M
    n = [eng.intcmp('==', fld(prof, p), I(ENUMS[p]['BA'])) for p in ENUMS]
    for t in TIMES:
        n.append(M.AND(eng.intcmp('==', fld(prof, t, 'sec'), I(BA[0])), eng.intcmp('==', fld(prof, t, 'nsec'), I(BA[1]))))
    return M.ORs(*n)


def target(v):
    """What an argument denotes, for comparing the arguments of calls."""
    if v[0] == 'at':
        return v[1]
    return v


def c47(ctx):
    ctx.rule('Typestate of the query result over all paths of both topic variants: the query runs exactly when a policy is BEST_AVAILABLE, a failed query is '
             'returned as it is, a successful one is resolved by the variant for the same role and finalised exactly once, and every failure is reported.')
    for role, other in (('sub', 'pub'), ('pub', 'sub')):
        name = FUN[role].replace('for_', 'for_topic_')
        fn = ctx.one(name, 4)
        w = where(fn)
        handed = []

        def queried(eng, s, f, args, r):
            a = args[4] if len(args) == 5 else None
            if a is None or a[0] == 'L' or a[1][0] != 'ptr':
                raise Inconclusive('the array handed to the query is not known')
            handed.append(eng.peek(s, a[1][1]))
            eng.write(s, a[1][1], ('outp', r, I(4)))
        eng = ctx.engine(ignore_fn=quiet_errors, opaque_fn=lambda f: f.q in FUN.values(), cb_effect=queried)
        prof = ('deref', ('sym', 'profile'))
        outs = ctx.run(eng, fn, eng.entry_args(fn, ['node', 'topic', 'profile', 'get']))
        M = eng.M
        null = M.ORs(*[eng.eq(('sym', n), NULL) for n in ('node', 'topic', 'profile')])
        ba = ba_node(eng, prof)

        def need(rule, c, want, detail, e=None):
            bad = M.AND(c, M.NOT(want))
            known = all(a[0] in ('val', 'cmp') and (a[1][0] in ('sym', 'fld') or a[1][0] == 'res') for a in M.support(bad))
            ctx.ob(rule, loc(e[-1]) if e else w, bad == 0, detail + (' when ' + eng.shownode(bad)[:300] if bad else ''), unknown=not known)
        for v in handed:
            zero = is_zero(v) or v[0] == 'res' and v[1] == 'rmw_get_zero_initialized_topic_endpoint_info_array'
            ctx.ob('the query gets an empty array', w, zero, 'it gets %s' % eng.show(v)[:200], unknown=not contains_term(v, lambda t: t == ('undef',)))
        for k, s, v in outs:
            if k != 'r':
                ctx.ob('never throws', w, False, 'an exception leaves the function')
                continue
            c0 = s.cond
            query = fini = resolve = None
            qn = nf = nr = 0
            for e in s.ev:
                if e[0] == 'cb' and e[1] == ('deref', ('sym', 'get')):
                    query, qn = e, qn + 1
                elif e[0] == 'call' and e[1] == 'rmw_topic_endpoint_info_array_fini':
                    fini, nf = e, nf + 1
                elif e[0] == 'call' and e[1] in FUN.values():
                    resolve, nr = e, nr + 1
                    ctx.ob('resolved for its own role', loc(e[-1]), e[1] == FUN[role], 'calls %s' % e[1])
                elif e[0] == 'call' and e[1] in ('rmw_get_zero_initialized_topic_endpoint_info_array', 'rmw_topic_endpoint_info_array_check_zero'):
                    pass
                elif e[0] in ('call', 'cb') and not any(contains_term(a, lambda t: t in (('sym', 'profile'),)) for a in e[3] if isinstance(a, tuple)) and e[0] == 'call' and e[1].startswith(('rcutils_', 'rcpputils')):
                    pass
                else:
                    raise Inconclusive('%s %s at %s' % (e[0], e[1] if isinstance(e[1], str) else eng.show(e[1]), loc(e[-1])))
            pm = s.mem.get(('m', ('sym', 'profile')))
            if resolve is None:
                same = pm is None or pm == prof
                ctx.ob('the profile changes only by resolution', w, same, 'the profile is changed without being resolved')
            ctx.ob('queried at most once', w, qn <= 1, 'the endpoints are queried %d times' % qn)
            if query is None:
                ctx.ob('resolved only from a query', w, resolve is None, 'resolved without querying')
                for g, code in eng.alts(v):
                    c = M.AND(c0, g)
                    if c == 0:
                        continue
                    if code == I(OK):
                        need('a best-available policy is resolved', c, M.AND(M.NOT(null), M.NOT(ba)), 'returns OK without a query')
                    elif code == I(INVALID):
                        need('valid arguments are accepted', c, null, 'INVALID_ARGUMENT')
                    else:
                        need('no failure without a query', c, 0, 'returns %s' % eng.show(code)[:80])
                continue
            args, q = query[2], query[3]
            need('queried only with valid arguments', c0, M.NOT(null), 'null argument', query)
            need('queried only for best-available policies', c0, ba, 'queried for a concrete profile', query)
            ctx.ob('queries the given node and topic', loc(query[-1]), len(args) == 5 and args[0] == ('sym', 'node') and args[2] == ('sym', 'topic'),
                   'queries %s' % ', '.join(eng.show(a)[:60] for a in args))
            failed = M.NOT(eng.intcmp('==', q, I(OK)))
            bad, good = M.AND(c0, failed), M.AND(c0, M.NOT(failed))
            if bad:
                ctx.ob('a failed query is not resolved', loc(query[-1]), resolve is None or M.AND(bad, 1) == 0, 'resolved although the query failed')
                for g, code in eng.alts(v):
                    c = M.AND(bad, g)
                    if c:
                        ctx.ob('a failed query is returned as it is', loc(query[-1]), code == q, 'returns %s' % eng.show(code)[:100])
            if good:
                ctx.ob('a successful query is resolved once', w, nr == 1, 'resolved %d times' % nr)
                ctx.ob('the query result is finalised exactly once', w, nf == 1, 'finalised %d times after a successful query' % nf)
                if nf != 1 or nr != 1:
                    continue
                ctx.ob('finalised after being used', loc(fini[-1]), s.ev.index(resolve) < s.ev.index(fini), 'finalised before it is resolved')
                ctx.ob('finalised with the allocator of the query', loc(fini[-1]), target(fini[3][1]) == target(args[1]), 'finalised with %s' % eng.show(fini[3][1])[:100])
                ctx.ob('resolves the queried endpoints into the profile', loc(resolve[-1]), resolve[3][1] == ('sym', 'profile'),
                       'resolves into %s' % eng.show(resolve[3][1])[:100])
                okc = M.AND(eng.intcmp('==', fini[4], I(OK)), eng.intcmp('==', resolve[4], I(OK)))
                for g, code in eng.alts(v):
                    c = M.AND(good, g)
                    if c == 0:
                        continue
                    isok = eng.intcmp('==', code, I(OK))
                    need('OK only if everything succeeded', M.AND(c, isok), okc, 'a failure is dropped')
                    need('a success is not turned into a failure', M.AND(c, M.NOT(isok)), M.NOT(okc), 'returns %s' % eng.show(code)[:60])
    ctx.assume('the query hands over ownership of the array only when it returns RMW_RET_OK')


SERVICES = {'history': 1, 'depth': 10, 'reliability': R['RELIABLE'], 'durability': D['VOLATILE'], 'liveliness': L['DEF'],
            'deadline': dict(sec=0, nsec=0), 'liveliness_lease_duration': dict(sec=0, nsec=0), 'lifespan': dict(sec=0, nsec=0),
            'avoid_ros_namespace_conventions': 0}


def c48(ctx):
    import concrete
    ctx.rule('The returned profile is computed as guarded fields of the argument; for every enumerator and every order type of the durations the value of each '
             'policy must be the services default if BEST_AVAILABLE was requested and the requested value otherwise; all other fields are copied.')
    fn = ctx.one('rmw_dds_common::qos_profile_update_best_available_for_services', 1)
    w = where(fn)
    eng = ctx.engine(ignore_fn=quiet_errors)
    outs = ctx.run(eng, fn, eng.entry_args(fn, ['profile']))
    byref = fn.tu.type(fn.body['p'][0]['t']).k in ('ref', 'rref')
    prof = ('deref', ('sym', 'profile')) if byref else ('sym', 'profile')
    pairs = []
    for k, s, v in outs:
        if k != 'r':
            ctx.ob('never throws', w, False, 'an exception leaves the function')
            continue
        for e in s.ev:
            raise Inconclusive('%s at %s' % (e[0], loc(e[-1])))
        if byref and s.mem.get(('m', ('sym', 'profile')), prof) != prof:
            ctx.ob('the argument is not changed', w, False, 'writes to the argument')
        pairs += [(eng.M.AND(s.cond, g), x) for g, x in eng.alts(v) if eng.M.AND(s.cond, g)]
    ret = eng.mkgv(pairs, 400)
    B = type('B', (), {'eng': eng})()
    for f in OTHERS:
        v = eng.sel(ret, ('f', f))
        ctx.ob('%s is copied' % f, w, v == fld(prof, f), '%s becomes %s' % (f, eng.show(v)[:100]))
    for pol in POLICIES:
        T = eng.sel(ret, ('f', pol))
        parts = ('sec', 'nsec') if pol in TIMES else (None,)
        terms = [T if p is None else eng.sel(T, ('f', p)) for p in parts]
        leaves = leaf_paths(eng, terms, prof) | {(pol, p) if p else (pol,) for p in parts}
        whole = {p for p in leaves if p[-1] in TIMES}
        leaves = (leaves - whole) | {p + (x,) for p in whole for x in ('sec', 'nsec')}
        n = 0
        bad = None
        for name, d in assign(domains(B, leaves, 2)):
            ev = concrete.Eval(eng, lambda t: d if t == prof else SERVICES if t == ('glob', 'rmw_qos_profile_services_default') else None)
            try:
                got = tuple(ev.term(t) for t in terms)
            except concrete.Undefined as ex:
                raise Inconclusive('%s: %s' % (pol, ex))
            if pol in TIMES:
                want_ = tm(SERVICES[pol]) if tm(d[pol]) == BA else tm(d[pol])
            else:
                want_ = (SERVICES[pol],) if d[pol] == ENUMS[pol]['BA'] else (d[pol],)
            n += 1
            if got != want_:
                bad = bad or '%s becomes %s instead of %s for %s' % (pol, got, want_, ', '.join('%s=%s' % x for x in name))
        ctx.ob('%s is the services default or the request' % pol, w, bad is None, bad or '')
        ctx.site('%s: %d representative requests' % (pol, n))
    ctx.assume('rmw_qos_profile_services_default has the values of rmw/qos_profiles.h (reproduced in stubs/)')


# ------------------------------------------------------------------- type hash
def c50(ctx):
    ctx.rule('Guarded outcomes of encode_type_hash_for_user_data_qos and parse_type_hash_from_user_data compared with the documented ones; the text written must '
             'be key=value; with the very key the parser looks up; the stringified buffer is released exactly once and not used afterwards.')
    enc = ctx.one('rmw_dds_common::encode_type_hash_for_user_data_qos', 2)
    par = ctx.one('rmw_dds_common::parse_type_hash_from_user_data', 3)
    key = encode(ctx, enc)
    n = len(ctx.obs)
    failed = None
    try:
        parse(ctx, par, key)
    except ERRORS as ex:
        failed = ex
    if key is not None and (failed is not None or any(not o.ok and (o.unknown or o.rule == VALUE) for o in ctx.obs[n:])):
        # the value takes a way that has no general rule: known values are parsed
        obs = ctx.obs
        rest = None
        for text in HASHES:
            ctx.obs = []
            try:
                parse(ctx, par, key, text)
            except ERRORS as ex:
                rest = rest or ex
                continue
            bad = [o for o in ctx.obs if not o.ok]
            if any(not o.unknown for o in bad):
                ctx.obs = obs[:n] + [o for o in bad if not o.unknown]
                return
            if bad:
                rest = rest or Inconclusive(bad[0].detail)
        if rest is not None:
            for o in obs[n:]:
                if not o.ok and o.rule == VALUE:
                    o.unknown = True
            ctx.obs = obs
            raise failed or rest
        ctx.obs = obs[:n] + [o for o in obs[n:] if o.ok or not o.unknown and o.rule != VALUE]
        ctx.ob(VALUE, where(par), True)
        ctx.assume('the bytes of the value are copied by a loop that has no general rule: it was instantiated on %d values' % len(HASHES))
        return
    if failed is not None:
        raise failed


VALUE = 'the value under the key is parsed'


def text_at(p):
    """The C string a pointer to literal bytes denotes, or None."""
    x = p[1] if p[0] == 'cptr' else None
    if p[0] == 'cptr' and x[0] == 'cstrof' and x[2] in (I(0), BEGIN):
        x = x[1]
    if x is not None and x[0] == 's':
        return x[1].split('\0')[0]
    if x is not None and x[0] == 'vec':
        out = ''
        for c in x[1]:
            if c[0] != 'i':
                return None
            if c[1] == 0:
                return out
            out += chr(c[1] & 255)
    return None


HASHES = ('RIHS01_' + '0123456789abcdef' * 4, 'RIHS01_' + 'f' * 62 + '00', 'RIHS01_00' + 'e' * 62, '', 'RIHS01_' + 'ABCDEF09' * 8, 'RIHS02_' + 'ab' * 32,
          'RIHS01_' + 'ab' * 32 + '0', 'RIHS01_' + 'ab' * 31, ' RIHS01_' + 'ab' * 32, 'RIHS01_' + 'ab' * 32 + ' ', 'rihs01_' + 'ab' * 32,
          'RIHS01_' + 'ab' * 32 + '\n', '\n', ' ', '0', 'typehash', 'RIHS01_' + 'g' * 64)


def encode(ctx, fn):
    w = where(fn)
    early = []

    def freed(eng, s, f, args, r):
        a = args[0] if args else None
        if f[0] == 'fld' and f[2] == 'deallocate' and a is not None and a[0] == 'V':
            if not any(contains_term(v, lambda t: t == ('cstr', a[1])) for v in s.mem.values()):
                early.append((r, a[1]))
    eng = ctx.engine(ignore_fn=quiet_errors, cb_effect=freed)
    outs = ctx.run(eng, fn, eng.entry_args(fn, ['hash', 'out']))
    M = eng.M
    unset = eng.intcmp('==', fld(('deref', ('sym', 'hash')), 'version'), I(0))
    key = None
    for k, s, v in outs:
        if k != 'r':
            ctx.ob('never throws', w, False, 'an exception leaves the function')
            continue
        text = s.mem.get(('m', ('sym', 'out')))
        st = [e for e in s.ev if e[0] == 'call' and e[1] == 'rosidl_stringify_type_hash']
        rest = [e for e in s.ev if e[0] in ('call', 'cb') and e not in st and e[1] != 'rcutils_get_default_allocator']
        free = [e for e in rest if e[0] == 'cb' and e[1][0] == 'fld' and e[1][2] == 'deallocate']
        for e in rest:
            if e not in free:
                raise Inconclusive('%s %s at %s' % (e[0], e[1] if isinstance(e[1], str) else eng.show(e[1]), loc(e[-1])))
        for g, code in eng.alts(v):
            c = M.AND(s.cond, g)
            if c == 0:
                continue
            if not st:
                ctx.ob('a set hash is encoded', w, M.implies(c, unset), 'not encoded when %s' % eng.shownode(M.AND(c, M.NOT(unset)))[:200])
                ctx.ob('an unset hash gives an empty text', w, code == I(OK) and text == S(''), 'returns %s with text %s' % (eng.show(code), eng.show(text) if text else 'unchanged'))
                continue
            ctx.ob('an unset hash is not encoded', w, M.AND(c, unset) == 0, 'an unset hash is stringified')
            ctx.ob('stringified once', w, len(st) == 1, 'stringified %d times' % len(st))
            r = st[0][4]
            a = st[0][3]
            ctx.ob('encodes the given hash', loc(st[0][-1]), a[0] in (('ptr', (('m', ('sym', 'hash')), ())), ('ptrto', ('deref', ('sym', 'hash')))), 'encodes %s' % eng.show(a[0])[:100])
            ok, alloc = eng.intcmp('==', r, I(OK)), eng.intcmp('==', r, I(BAD_ALLOC))
            for cond, want_, what in ((M.AND(c, ok), OK, 'success'), (M.AND(c, alloc), BAD_ALLOC, 'an allocation failure'),
                                      (M.ANDs(c, M.NOT(ok), M.NOT(alloc)), ERROR, 'another failure')):
                if cond:
                    ctx.ob('%s is reported as such' % what, w, code == I(want_) or (code == r and want_ != ERROR), '%s returns %s' % (what, eng.show(code)[:60]))
            if M.AND(c, ok):
                buf = ('outp', r, I(2))
                text = eng.prune(text, M.AND(c, ok)) if text is not None else None
                for e in free:
                    late = (e[3], buf) in early and text is not None and contains_term(text, lambda t: t == ('cstr', buf))
                    ctx.ob('the text is not used after being released', loc(e[-1]), not late, 'the text is read after deallocate')
                if text is None or text[0] != 'cat' or ('cstr', buf) not in text[1]:
                    known = text is not None and text[0] in ('s', 'cat')
                    ctx.ob('the text contains the hash', w, False, 'the text is %s' % (eng.show(text)[:200] if text else 'unchanged'), unknown=not known and text is not None)
                    continue
                i = text[1].index(('cstr', buf))
                pre, post = text[1][:i], text[1][i + 1:]
                ctx.ob('the text is key=value;', w, len(pre) == 1 and pre[0][0] == 's' and pre[0][1].endswith('=') and post == (S(';'),), 'the text is %s' % eng.show(text)[:200])
                key = pre[0][1][:-1] if pre and pre[0][0] == 's' else None
                n = [e for e in free if buf in e[2]]
                ctx.ob('the text is released exactly once', w, len(n) == 1, 'released %d times' % len(n))
                for e in n:
                    ctx.ob('released by the allocator that made it', loc(e[-1]), a[1] == e[1][1] or ('ptrto', e[1][1]) == a[1], 'released by %s' % eng.show(e[1])[:100])
            elif any(('outp', r, I(2)) in e[2] for e in free):
                pass
    return key


def parse(ctx, fn, key, text=None):
    w = where(fn)
    eng = ctx.engine(ignore_fn=quiet_errors)
    known = ('map', EMPTY, ((S(key), ('vec', tuple(I(ord(c)) for c in text))),)) if text is not None else None

    def given(eng, st, fr, f, obj, args, e):
        if f.q == 'rmw::impl::cpp::parse_key_value':
            s = st.copy()
            eng.event(s, 'call', f.q, None, tuple(eng.aval(s, a) for a in args), known)
            return [(s, known)]
        if f.q == 'rosidl_parse_type_hash_string':
            a = eng.aval(st, args[0])
            if a[0] in ('aptr', 'ptr') and a[-1] == I(0) or a[0] == 'ptr':
                at[a] = eng.peek(st, a[1])
        return None
    at = {}
    if known:
        eng.call_hooks.append(given)
        eng.UNROLL = max(eng.UNROLL, 100)
    outs = ctx.run(eng, fn, eng.entry_args(fn, ['data', 'size', 'out']))
    M = eng.M
    null = eng.eq(('sym', 'data'), NULL)
    for k, s, v in outs:
        if k != 'r':
            ctx.ob('never throws', w, False, 'an exception leaves the function')
            continue
        out = s.mem.get(('m', ('sym', 'out')))
        calls = {e[1]: e for e in s.ev if e[0] == 'call'}
        for e in s.ev:
            if e[0] not in ('call',) or e[1] not in ('rmw::impl::cpp::parse_key_value', 'rosidl_get_zero_initialized_type_hash', 'rosidl_parse_type_hash_string'):
                raise Inconclusive('%s %s at %s' % (e[0], e[1] if isinstance(e[1], str) else eng.show(e[1]), loc(e[-1])))
        kv = calls.get('rmw::impl::cpp::parse_key_value')
        ps = calls.get('rosidl_parse_type_hash_string')
        for g, code in eng.alts(v):
            c = M.AND(s.cond, g)
            if c == 0:
                continue
            if kv is None:
                ctx.ob('user data is parsed', w, M.implies(c, null), 'not parsed when %s' % eng.shownode(M.AND(c, M.NOT(null)))[:200])
                ctx.ob('missing user data is rejected', w, code == I(INVALID), 'returns %s' % eng.show(code)[:60])
                continue
            ctx.ob('null user data is rejected', w, M.AND(c, null) == 0, 'null user data is parsed')
            ctx.ob('all of the user data is parsed', loc(kv[-1]), kv[3] == (('vrange', ('sym', 'data'), ('aptr', (('m', ('sym', 'data')), ()), ('sym', 'size'))),),
                   'parses %s' % ', '.join(eng.show(a)[:100] for a in kv[3]), unknown=kv[3][0][0] not in ('vrange',))
            m = kv[4]
            if key is None:
                raise Inconclusive('the key the encoder writes is not known')
            has = eng.map_has(m, S(key))
            if ps is None:
                ctx.ob('the value under the key "%s" is used' % key, w, M.AND(c, has) == 0, 'the hash is not parsed when %s' % eng.shownode(M.AND(c, has))[:200])
                zero = calls.get('rosidl_get_zero_initialized_type_hash')
                ctx.ob('no hash in the user data gives a zero hash', w, code == I(OK) and out is not None and ((zero is not None and out == zero[4]) or is_zero(out)),
                       'returns %s with hash %s' % (eng.show(code)[:60], eng.show(out)[:100] if out else 'unchanged'))
                continue
            ctx.ob('a hash is parsed only if the key is there', w, M.implies(c, has), 'parsed when %s' % eng.shownode(M.AND(c, M.NOT(has)))[:200])
            a = ps[3]
            if text is not None:
                v = at.get(a[0])
                got = text_at(a[0] if v is None else ('cptr', v))
                if got is None and v is not None and v[0] == 'vec' and all(x[0] == 'i' for x in v[1]):
                    ctx.ob('the parsed text is terminated', loc(ps[-1]), False, 'parses %d bytes without a terminator' % len(v[1]))
                    continue
                ctx.ob(VALUE, loc(ps[-1]), got == text.split('\0')[0], 'parses %r for %r' % (eng.show(a[0])[:200] if got is None else got, text), unknown=got is None)
                continue
            val = ('mget', m, S(key))
            ctx.ob(VALUE, loc(ps[-1]), a[0] == ('cptr', ('strof', val)), 'parses %s' % eng.show(a[0])[:200],
                   unknown=contains_term(a[0], lambda t: t == val) and
                   not (a[0][0] == 'cptr' and a[0][1][0] == 'strof' and a[0][1][1] == val))
            r = ps[4]
            ok = eng.intcmp('==', r, I(OK))
            if M.AND(c, ok):
                ctx.ob('a parsed hash is success', w, code == I(OK) or code == r, 'returns %s' % eng.show(code)[:60])
                ctx.ob('the parsed hash is handed out', w, a[1] == ('ptr', (('m', ('sym', 'out')), ())) and out == ('outp', r, I(1)) or
                       (a[1][0] == 'ptrto' and out == ('outp', r, I(1))), 'the hash is %s' % (eng.show(out)[:100] if out else 'unchanged'))
            if M.AND(c, M.NOT(ok)):
                ctx.ob('an unparsable hash is an error', w, code == I(ERROR), 'returns %s' % eng.show(code)[:60])


def is_zero(v):
    if v[0] == 'st':
        return all(is_zero(x) for _, x in v[2])
    if v[0] == 'vec':
        return all(is_zero(x) for x in v[1])
    return v == I(0) or (v[0] == 'vfill' and v[2] == I(0))


for _p, _f in (('c40', c40), ('c41', c41), ('c42', c42), ('c43', c43)):
    globals()[_p] = with_instances(_f, instances(_p.upper()), _p == 'c43')

RULES = {'C40': (c40, ['qos']), 'C41': (c41, ['qos']), 'C42': (c42, ['qos']), 'C43': (c43, ['qos']),
         'C44': (c44, ['qos']), 'C45': (c45, ['qos']), 'C46': (c46, ['qos']), 'C47': (c47, ['qos']),
         'C48': (c48, ['qos']), 'C49': (c49, ['qos']), 'C50': (c50, ['qos'])}


def base_of(v):
    """(base pointer, offset) of a character pointer."""
    off = I(0)
    if v[0] == 'padd':
        return v[1], v[2]
    if v[0] in ('aptr',) and v[1][0][0] == 'm' and not v[1][1]:
        return v[1][0][1], v[2]
    if v[0] == 'ptr' and v[1][0][0] == 'm':
        p = v[1][1]
        if p and p[0][0] == 'at':
            return v[1][0][1], p[0][1]
        if not p:
            return v[1][0][1], I(0)
    return v, off
