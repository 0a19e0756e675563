"""The compatibility check on explicit profiles and buffer sizes (fallback of C40-C43).

The same guarded exits, computed with machine arithmetic, are instantiated on every pair of values of each policy, on
combinations of incompatible policies, on durations around every limit and on every interesting size of the reason
buffer.  Used where the finite tables cannot express a term."""
import itertools

from core import Inconclusive, contains_term, where, loc
from engine import S, I, NULL, UNDEF, Unsupported
from exact import Exact
from concrete import Undefined
import rules.qos as q

NAMES = {'reliability': {0: 'system_default', 1: 'reliable', 2: 'best_effort', 4: 'best_available'},
         'durability': {0: 'system_default', 1: 'transient_local', 2: 'volatile', 4: 'best_available'},
         'liveliness': {0: 'system_default', 1: 'automatic', 3: 'manual_by_topic', 5: 'best_available'}}
BY_FN = {fn: pol for pol, fn in q.FN.items()}
BASE = {'reliability': (1, 1), 'durability': (2, 2), 'liveliness': (1, 1),
        'deadline': ((0, 0), (0, 0)), 'liveliness_lease_duration': ((0, 0), (0, 0))}
BADP = {'reliability': (2, 1), 'durability': (2, 1), 'liveliness': (1, 3), 'deadline': ((5, 0), (4, 0)),
        'liveliness_lease_duration': ((5, 7), (5, 6))}
WARNP = {'reliability': (0, 1), 'durability': (3, 1), 'liveliness': (4, 3)}
SECS = (0, 1, 2, 18, 9223372036, 9223372037, 18446744073, 18446744074, 2 ** 31, 2 ** 32 + 1, 2 ** 63, 2 ** 64 - 1)
NSECS = (0, 1, 999999999)


def expected(pol, p, s):
    """'', 'warn', 'missing', 'less' or 'bad' for one policy."""
    if pol in q.TIMES:
        if p == (0, 0):
            return '' if s == (0, 0) else 'missing'
        return 'less' if s != (0, 0) and s < p else ''
    en = q.ENUMS[pol]
    unk = lambda x: x in (en['DEF'], en['UNKNOWN'])
    weak = {'reliability': 'BEST_EFFORT', 'durability': 'VOLATILE', 'liveliness': 'AUTOMATIC'}[pol]
    strong = {'reliability': 'RELIABLE', 'durability': 'TRANSIENT_LOCAL', 'liveliness': 'MANUAL_BY_TOPIC'}[pol]
    if p == en[weak] and s == en[strong]:
        return 'bad'
    if unk(p) and (unk(s) or s == en[strong]) or p == en[weak] and unk(s):
        return 'warn'
    return ''


def profiles(full):
    yield dict(BASE)
    for pol in q.POLICIES:
        if pol in q.TIMES:
            secs = {2: SECS, 1: (0, 1, 2, 18446744074, 2 ** 32 + 1, 2 ** 63, 2 ** 64 - 1), 0: (0, 1, 2 ** 64 - 1)}[full]
            ts = list(itertools.product(secs, NSECS if full == 2 else (0, 1)))
            pairs = itertools.product(ts, ts)
        else:
            pairs = itertools.product(sorted(q.ENUMS[pol].values()), repeat=2)
        for pr in pairs:
            yield dict(BASE, **{pol: pr})
    for n in range(2, 6):
        for ps in itertools.combinations(q.POLICIES, n):
            yield dict(BASE, **{p: BADP[p] for p in ps})
    for n in range(2, 4):
        for ps in itertools.combinations(WARNP, n):
            yield dict(BASE, **{p: WARNP[p] for p in ps})
    for e in q.POLICIES:
        for w in WARNP:
            if e != w:
                yield dict(BASE, **{e: BADP[e], w: WARNP[w]})


def show(pr):
    return ', '.join('%s publisher %s subscription %s' % (p, v[0], v[1]) for p, v in pr.items() if v != BASE[p]) or 'equal profiles'


class Conc:
    def __init__(self, ctx, texts):
        self.C = C = q.Compat.__new__(q.Compat)
        C.ctx, C.texts = ctx, texts
        C.fn = ctx.one('rmw_dds_common::qos_profile_check_compatible', 5)
        C.names = ['pub', 'sub', 'compat', 'reason', 'reason_size']
        byref = [C.fn.tu.type(p['t']).k in ('ref', 'rref') for p in C.fn.body['p'][:2]]
        C.P, C.Sb = [('deref', ('sym', n)) if r else ('sym', n) for n, r in zip(C.names, byref)]
        C.exact = True
        self.eng = C.engine({}, {})
        self.eng.merge_limit = 2000
        self.outs = ctx.run(self.eng, C.fn, self.eng.entry_args(C.fn, C.names))
        self.index()

    def index(self):
        self.exits = []
        self.last = None, None
        for k, s, v in self.outs:
            val = self.eng.peek(s, (('m', ('sym', 'compat')), ())) if k == 'r' else None
            self.exits.append((k, s, v, val))

    def leaf(self, pr, reason, size, env, ev):
        C, eng = self.C, self.eng
        known = {('sym', 'reason'): 77 if reason else 0, ('sym', 'reason_size'): size or 0, ('sym', 'compat'): 88}
        for pol, (p, s) in pr.items():
            for root, v in ((C.P, p), (C.Sb, s)):
                t = ('fld', root, pol)
                if pol in q.TIMES:
                    known[('fld', t, 'sec')], known[('fld', t, 'nsec')] = v
                    known[t] = {'sec': v[0], 'nsec': v[1]}
                else:
                    known[t] = v

        def leaf(t):
            if t in known:
                return known[t]
            if t in env:
                return env[t]
            k = t[0]
            if k == 'elem' and (t[1] in env or t[1] == ('deref', ('sym', 'reason'))) and size is not None:
                i = ev[0].num(t[2])
                mem = env.get(t[1], ['\1'] * size)
                if not 0 <= i < len(mem):
                    raise Undefined('reason[%d]' % i)
                return ord(mem[i])
            if k in ('size', 'slen') and t[1][0] in ('cat', 'gv', 'cstr', 's', 'substr'):
                return len(ev[0].buf.string(t[1]))
            if k == 'fmtok':
                return 1
            if k == 'len' and not C.texts:
                return 0
            if k == 'app' and t[1] in BY_FN and t[2] in known:
                return NAMES[BY_FN[t[1]]].get(known[t[2]], 0)
            if k == 'cptr' and t[1][0] == 's':
                return t[1][1] or 'EMPTY'
            return None
        return leaf

    def candidates(self, pr):
        """Exits that the policies do not rule out."""
        key = tuple(pr.items())
        if self.last[0] != key:
            cell, memo = [], {}
            leaf = self.leaf(pr, True, None, {}, cell)
            ev = Exact(self.eng, lambda t: None if t[0] in ('len', 'fmtok') or t in (('sym', 'reason'), ('sym', 'reason_size')) else leaf(t))
            cell.append(ev)
            self.last = key, [x for x in self.exits if ev.possible(x[1].cond, memo)]
        return self.last[1]

    def exit(self, pr, reason, size, replay=False):
        """(kind, code, verdict, buffer replay) of the exit taken."""
        hit = None
        for k, s, v, val in self.candidates(pr):
            env = {}
            cell = []
            ev = Exact(self.eng, self.leaf(pr, reason, size if reason else None, env, cell))
            cell.append(ev)
            buf = ev.buf = Buffer(self, ev, env, pr, size if reason else None)
            try:
                if replay:
                    buf.play(s.ev)
                if not ev.node(s.cond):
                    continue
            except Undefined as ex:
                if replay and env.get('undefined') is None:
                    # the path may not be the one taken
                    try:
                        if not ev.node(s.cond):
                            continue
                    except Undefined:
                        pass
                raise
            hit = (k, ev.term(v) if k == 'r' else None, ev, val, buf)
            break
        if hit is None:
            raise Undefined('no exit')
        k, code, ev, val, buf = hit
        return k, code, ev.term(val) if k == 'r' and code == q.OK else None, buf


class Buffer:
    """The reason buffer of one run."""

    def __init__(self, cc, ev, env, pr, size):
        self.cc, self.ev, self.env, self.pr = cc, ev, env, pr
        self.mem = ['\1'] * size if size is not None else None
        self.size = size
        self.wrong = None
        self.args = []

    def fail(self, what, e):
        if self.wrong is None:
            self.wrong = '%s at %s' % (what, loc(e[-1]))

    def put(self, i, ch, e):
        if self.mem is None:
            return self.fail('writes through a null buffer', e)
        if not 0 <= i < len(self.mem):
            return self.fail('writes reason[%d] of a buffer of %d bytes' % (i, len(self.mem)), e)
        self.mem[i] = ch

    def place(self, v):
        v = self.resolve(v)
        if v[0] in ('w', 'op') and v[1] in ('+', '-') or v[0] == 'add':
            a, b = (v[1], v[2]) if v[0] == 'add' else v[-2:]
            sign = -1 if v[0] != 'add' and v[1] == '-' else 1
            if contains_term(a, lambda t: t == ('sym', 'reason')):
                return self.place(a) + sign * self.ev.num(b)
            if sign == 1 and contains_term(b, lambda t: t == ('sym', 'reason')):
                return self.place(b) + self.ev.num(a)
        b, off = q.base_of(v)
        if b != ('sym', 'reason'):
            raise Undefined('text is composed elsewhere')
        return self.ev.num(off)

    def resolve(self, v):
        while v[0] == 'gv':
            for g, x in v[1]:
                if self.ev.node(g):
                    v = x
                    break
            else:
                raise Undefined('no alternative')
        return v

    def length(self, off, limit, e):
        if self.mem is None:
            if limit == 0:
                return 0
            self.fail('reads a null buffer', e)
            return 0
        n = 0
        while limit is None or n < limit:
            if off + n >= len(self.mem):
                self.fail('reads past the end of a buffer of %d bytes' % len(self.mem), e)
                break
            if self.mem[off + n] == '\0':
                break
            n += 1
        return n

    def string(self, t):
        """Value of a std::string term."""
        t = self.resolve(t)
        if t[0] == 's':
            return t[1]
        if t[0] == 'cat':
            return ''.join(self.string(x) for x in t[1])
        if t[0] == 'cstr':
            x = self.text(t[1])
            if x is None:
                self.wrong = self.wrong or 'a std::string is made from a null pointer'
                return ''
            return x
        if t[0] == 'substr' and len(t) == 4:
            x, a = self.string(t[1]), self.ev.num(t[2])
            return x[a:] if t[3] == ('npos',) else x[a:a + self.ev.num(t[3])]
        raise Undefined('string %s' % (t[0],))

    def text(self, v):
        v = self.resolve(v)
        if v[0] == 'cptr':
            return self.string(v[1])
        if v in (NULL, I(0)):
            return None
        if v[0] == 'app':
            x = self.ev.leaf(v)
            return x if isinstance(x, str) else None
        raise Undefined('text %s' % str(v)[:300])

    def play(self, evs):
        for n, e in enumerate(evs):
            self.one(e)
            if e[0] in ('fmt', 'raw') and self.mem is not None:
                self.env[('bufver', I(n))] = list(self.mem)

    def one(self, e):
        if True:
            k = e[0]
            if k == 'wr':
                path = e[1] or (('at', I(0)),)
                if len(path) != 1 or path[0][0] != 'at':
                    raise Undefined('reason written as a whole')
                v = self.ev.num(e[2])
                self.put(self.ev.num(path[0][1]), chr(v & 255), e)
            elif k == 'length':
                off = self.place(e[2][0])
                self.env[e[3]] = self.length(off, self.ev.num(e[2][1]) if e[1] == 'strnlen' else None, e)
            elif k == 'raw':
                self.raw(e)
            elif k == 'fmt':
                self.fmt(e)
            elif contains_term(e, lambda t: t == ('sym', 'reason')):
                raise Undefined('the reason is handled by %s' % e[0])

    def raw(self, e):
        _, fn, vs, _ = e
        off = self.place(vs[0])
        if fn == 'memset' or fn == 'fill_n':
            n, c = (vs[2], vs[1]) if fn == 'memset' else (vs[1], vs[2])
            for i in range(self.ev.num(n)):
                self.put(off + i, chr(self.ev.num(c) & 255), e)
                if self.wrong:
                    break
            return
        if fn in ('strncpy', 'strcpy', 'memcpy', 'memmove', 'strcat', 'strncat'):
            src = self.text(vs[1])
            if src is None:
                return self.fail('copies a null string', e)
            n = self.ev.num(vs[2]) if len(vs) > 2 else None
            if fn in ('strcat', 'strncat'):
                off += self.length(off, None, e)
                src = src[:n] + '\0'
            elif fn == 'strcpy':
                src += '\0'
            else:
                src = (src + '\0' * n)[:n] if fn == 'strncpy' else (src + '\0')[:n]
            for i, ch in enumerate(src):
                self.put(off + i, ch, e)
            return
        raise Undefined(fn)

    def fmt(self, e):
        _, dst, n, fmt, rest, res, _ = e
        f = self.text(fmt)
        parts = f.replace('%%', '\2').split('%s')
        if any('%' in p for p in parts):
            raise Undefined('conversion')
        if len(rest) < len(parts) - 1:
            self.fail('more conversions than arguments', e)
            parts = parts[:len(rest) + 1]
        out = parts[0]
        for a, p in zip(rest, parts[1:]):
            t = self.text(a)
            if t is None:
                self.fail('a null string is formatted', e)
                t = '(null)'
            self.args.append((out, t))
            out += t + p
        out = out.replace('\2', '%')
        room = self.ev.num(n)
        d = self.resolve(dst)
        if d in (NULL, I(0)) and room == 0:
            self.env[res] = len(out)
            return
        off = self.place(dst)
        if room > 0:
            for i, ch in enumerate(out[:room - 1] + '\0'):
                self.put(off + i, ch, e)
        self.env[res] = len(out)

    def content(self):
        if self.mem is None:
            return ''
        if '\0' not in self.mem:
            return None
        return ''.join(self.mem[:self.mem.index('\0')])


def verdicts(ctx, pid):
    """C40-C42 on explicit profiles: reports a definite violation or nothing."""
    cc = Conc(ctx, False)
    w = where(cc.C.fn)
    n = 0
    for pr in profiles(2):
        try:
            k, code, x, _ = cc.exit(pr, True, 2048)
        except Undefined:
            continue
        n += 1
        exp = {p: expected(p, *v) for p, v in pr.items()}
        err = [p for p, e in exp.items() if e in ('bad', 'missing', 'less')]
        warn = [p for p, e in exp.items() if e == 'warn']
        bad = None
        if k != 'r' or code != q.OK:
            bad = 'no verdict' if pid == 'C40' else None
        elif pid == 'C40':
            if (x == q.C_ERR) != bool(err):
                bad = 'verdict %s' % x
        elif pid == 'C41':
            te = [p for p in err if p in q.TIMES]
            if te and x != q.C_ERR or x == q.C_ERR and not err:
                bad = 'verdict %s' % x
        elif pid == 'C42' and not err and (x == q.C_WARN) != bool(warn) or pid == 'C42' and err and x == q.C_WARN:
            bad = 'verdict %s' % x
        if bad:
            ctx.ob('verdict on an explicit profile', w, False, '%s for %s' % (bad, show(pr)))
            return True
    ctx.site('%d explicit profiles evaluated with machine arithmetic' % n)
    return False


def said(text):
    """{(kind, policy)} and the time messages of a report."""
    out = []
    for m in text.split(';'):
        m = m.strip()
        if not m:
            continue
        kind, pol = m.split(':')[0], q.policy_of(m)
        if kind not in ('ERROR', 'WARNING') or pol is None:
            raise Undefined('message %r' % m)
        out.append((kind, pol, m))
    return out


def reports(ctx):
    """C43 on explicit profiles and buffer sizes. True if a violation was reported; raises Undefined when it cannot say."""
    cc = Conc(ctx, True)
    w = where(cc.C.fn)
    n = 0

    def bad(rule, detail):
        ctx.ob(rule, w, False, detail)
        return True
    small = [dict(p) for p in profiles(0)]
    for j, pr in enumerate(profiles(1)):
        exp = {p: expected(p, *v) for p, v in pr.items()}
        err = [p for p, e in exp.items() if e in ('bad', 'missing', 'less')]
        k, code, x, buf = cc.exit(pr, True, 4096, True)
        n += 1
        if k != 'r' or code != q.OK:
            return bad('only a failed append is an error', 'returns %s for %s' % (code, show(pr)))
        full = buf.content()
        if buf.wrong or full is None:
            return bad('the report stays in the buffer', '%s for %s' % (buf.wrong or 'not terminated', show(pr)))
        want = [('ERROR', p) for p in err] or [('WARNING', p) for p, e in exp.items() if e == 'warn']
        if '\1' in full:
            return bad('the reason starts out empty', 'earlier content of the buffer is kept for %s' % show(pr))
        got = said(full)
        if sorted((a, b) for a, b, _ in got) != sorted(want):
            return bad('the report names exactly the problems', '%r for %s' % (full, show(pr)))
        for _, p, m in got:
            if p in q.TIMES and ('less' in m.lower()) != (exp[p] == 'less') and ('not' in m.lower()) != (exp[p] == 'missing'):
                return bad('the report names exactly the problems', '%r for %s' % (m, show(pr)))
        for before, t in buf.args:
            p = q.policy_of(before)
            b = before.lower()
            if p in NAMES and t not in ('ERROR', 'WARNING'):
                v = pr[p][0 if b.rfind('publisher') > b.rfind('subscription') else 1]
                if t != NAMES[p].get(v, t):
                    return bad('messages name the right value', 'prints %r after %r for %s' % (t, before, show(pr)))
        if pr not in small:
            continue
        ends = {0, 1, 2, 3, 5, len(full), len(full) + 1, len(full) + 2}
        if j < 2 or len(got) > 3:
            ends |= set(range(0, min(len(full) + 3, 700), 1 if j < 2 or len(got) == 5 else 29))
        at = 0
        for _, _, m in got:
            at = full.index(m, at) + len(m)
            ends |= {at - 1, at, at + 1, at + 2}
        for size in sorted(ends):
            if size < 0:
                continue
            for given in ((True, False) if size == 0 else (True,)):
                k, code, x2, buf = cc.exit(pr, given, size, True)
                n += 1
                sit = 'buffer of %d bytes for %s' % (size, show(pr))
                if k != 'r' or code != q.OK or x2 != x:
                    return bad('truncation is not an error', 'returns %s, verdict %s with a %s' % (code, x2, sit))
                if buf.wrong:
                    return bad('the report stays in the buffer', '%s: %s' % (buf.wrong, sit))
                if size and buf.content() is None:
                    return bad('the report is terminated', sit)
                if size and buf.content() != full[:size - 1]:
                    return bad('running out of room only truncates', 'reads %r with a %s' % (buf.content(), sit))
    ctx.site('%d explicit profiles and buffer sizes replayed' % n)
    return False
