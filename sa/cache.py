"""Reading off a summary what one call does to one particular graph.

The engine gives, per exit of a function, a condition, a result, a final memory
and an ordered list of effects, all as terms over an arbitrary cache.  Here such
a summary is instantiated: the leaves are bound to the entities of a small
graph, to the arguments and to one choice of outcomes for the library calls,
which leaves a concrete sequence of effects (library calls, writes, lock
operations, notifications).  The library calls are interpreted by their
contracts on a small heap of strings and arrays.  The code itself is not run.
"""
from engine import Unsupported, I, NULL
from concrete import Undefined, OutOfBounds


class FMap(dict):
    """std::map or std::set (all values 1): iterated in key order."""

    def keyat(self, i):
        ks = sorted(self)
        if not 0 <= i < len(ks):
            raise OutOfBounds('position %s' % i)
        return ks[i]

    def at(self, i):
        k = self.keyat(i)
        first = {'data': k[1]} if isinstance(k, tuple) else k
        return first if self[k] == 1 else {'first': first, 'second': self[k]}


GIDLEN = 16
ENC = [15, 0]           # the byte that tells gids apart, and the value of all others
ENC_USED = [False]
GARBAGE = 0xEE


def gbytes(v):
    """Bytes of a gid number."""
    ENC_USED[0] = True
    if v >= 1 << 20:
        return list((v - (1 << 20)).to_bytes(GIDLEN, 'big'))
    j, fill = ENC
    b = [fill] * GIDLEN
    b[j] = v & 255
    b[(j + 1) % GIDLEN] ^= v >> 8
    return b


def gnumber(b):
    """The gid with these bytes (numbers from 1 << 20 on are no gid of the graph)."""
    j, fill = ENC
    v = b[j] | (b[(j + 1) % GIDLEN] ^ fill) << 8
    if all(x == fill for i, x in enumerate(b) if i not in (j, (j + 1) % GIDLEN)):
        return v
    ENC_USED[0] = True
    return (1 << 20) + int.from_bytes(bytes(x & 255 for x in b), 'big')


def encoded(cases):
    """The cases, and a part of them under other byte representations of gids if the code looks at bytes."""
    cases = list(cases)
    ENC[:] = [15, 0]
    ENC_USED[0] = False
    for c in cases:
        yield c
    if ENC_USED[0]:
        for j in range(GIDLEN):
            for fill in (0, 7, 200):
                ENC[:] = [j, fill]
                for c in cases[(5 * j + fill) % 7::7 if len(cases) > 300 else 3]:
                    yield c
        ENC[:] = [15, 0]


def gmap(d=()):
    return FMap({('g', k): v for k, v in dict(d).items()})


def norm(v):
    """Hashable form of a value."""
    if isinstance(v, dict):
        return ('d',) + tuple(sorted((k, norm(x)) for k, x in v.items()))
    if isinstance(v, list):
        return ('l',) + tuple(norm(x) for x in v)
    return v


def copyv(v):
    if isinstance(v, FMap):
        return FMap({k: copyv(x) for k, x in v.items()})
    if isinstance(v, dict):
        return {k: copyv(x) for k, x in v.items()}
    if isinstance(v, list):
        return [copyv(x) for x in v]
    return v


def step(path, i):
    """Address i elements further on."""
    if path and isinstance(path[-1], int):
        return path[:-1] + (path[-1] + i,)
    return path + (i,)


class Misuse(Exception):
    """The effects break the contract of a library function or of memory."""

    def __init__(self, rule, text):
        super().__init__(text)
        self.rule, self.text = rule, text


CHEAP = ('i', 's', 'sym', 'this', 'bq', 'bv', 'acc', 'accj', 'lv', 'null', 'res', 'outp', 'ptr', 'at', 'aptr')


class Ev:
    """Values of terms and conditions."""

    def __init__(self, eng, this, params):
        self.eng, self.this, self.params = eng, this, params
        self.bound = {}
        self.lvs = {}
        if not hasattr(eng, 'binders'):
            eng.binders = {}
        self.bqs = eng.binders
        if not hasattr(eng, 'depmemo'):
            eng.depmemo = {}
        self.depm = eng.depmemo
        self.memo = {}
        self.heap = None

    # -- binding -------------------------------------------------------------
    def bq(self, t):
        """The variable a quantifier over the predicate or term t binds."""
        fr = self.free(t)
        return ('bq', min(fr) if fr else -1)

    def free(self, t):
        """Numbers of the positions and accumulators free in t.  Inner binders have the smaller numbers."""
        key = t if isinstance(t, int) else id(t)
        r = self.bqs.get(key)
        if r is not None:
            return r[0]
        out = set()
        if isinstance(t, int):
            if t > 1:
                M = self.eng.M
                for a in M.support(t):
                    out |= self.free(a)
        elif t and isinstance(t[0], str):
            k = t[0]
            if k in ('bq', 'acc', 'accj'):
                out.add(t[1])
            elif k in ('any', 'count', 'fi', 'sum', 'vfilter'):
                x = self.free(t[2])
                out = set(self.free(t[1])) | (x - {min(x)} if x else x)
            elif k == 'fold':
                x = self.free(t[3])
                out = self.free(t[1]) | self.free(t[2]) | (x - {min(x)} if x else x)
            elif k == 'foldj':
                out = set(self.free(t[1]))
                x = set()
                for i0, st in t[2]:
                    out |= self.free(i0)
                    x |= self.free(st)
                out |= x - {min(x)} if x else x
            elif k == 'gv':
                for g, v in t[1]:
                    out |= self.free(g) | self.free(v)
            else:
                for x in t[1:]:
                    if isinstance(x, tuple):
                        out |= self.free(x)
        else:
            for x in t:
                if isinstance(x, tuple):
                    out |= self.free(x)
        out = frozenset(out)
        self.bqs[key] = (out, t)
        return out

    def deps(self, t):
        """Bound positions t depends on; None if it depends on a loop variable or an accumulator."""
        key = t if isinstance(t, int) else id(t)
        r = self.depm.get(key)
        if r is not None:
            return r[0]
        out = set(('bq', n) for n in self.free(t))
        seen = set()

        def go(x):
            if isinstance(x, int):
                if x > 1 and x not in seen:
                    seen.add(x)
                    for a in self.eng.M.support(x):
                        if not go(a):
                            return False
                return True
            if id(x) in seen:
                return True
            seen.add(id(x))
            if x and x[0] in ('lv', 'acc', 'accj', 'foldj', 'fold'):
                return False
            if x and x[0] == 'bv':
                out.add(x)
                return True
            if x and x[0] in ('any', 'count', 'fi', 'sum', 'vfilter') and len(x) == 3:
                return go(x[1]) and go(x[2])
            if x and x[0] == 'gv':
                return all(go(g) and go(v) for g, v in x[1])
            return all(go(y) for y in x if isinstance(y, tuple))
        r = tuple(out) if go(t) else None
        self.depm[key] = (r, t)
        return r

    def under(self, key, v, f, x):
        old = self.bound.get(key, self)
        self.bound[key] = v
        try:
            return f(x)
        finally:
            if old is self:
                del self.bound[key]
            else:
                self.bound[key] = old

    # -- sequences -----------------------------------------------------------
    def positions(self, V):
        k = V[0]
        if k == 'rev':
            return self.positions(V[1])[::-1]
        if k == 'drop':
            return self.positions(V[1])[self.t(V[2]):]
        if k == 'range':
            return list(range(max(0, self.t(V[1]))))
        if k == 'pfx':
            ps = self.positions(V[1])
            p = self.t(V[2])
            return ps[:ps.index(p)] if p in ps else ps
        v = self.t(V)
        if not isinstance(v, (list, FMap, str)):
            raise Undefined('sequence %s' % self.eng.show(V)[:80])
        return list(range(len(v)))

    def elem(self, V, i):
        while V[0] in ('rev', 'drop', 'pfx'):
            V = V[1]
        v = self.t(V)
        if isinstance(v, dict) and set(v) == {'data'}:
            v = v['data']
        if isinstance(v, int) and not isinstance(v, bool):
            v = gbytes(v)
        i = self.at(v, i) if isinstance(v, (list, FMap)) else self.t(i)
        if isinstance(v, FMap):
            return v.at(i)
        if isinstance(v, list):
            if not 0 <= i < len(v):
                raise OutOfBounds('element %s of %d' % (i, len(v)))
            return v[i]
        raise Undefined('element of %s' % self.eng.show(V)[:80])

    # -- terms ---------------------------------------------------------------
    def t(self, t):
        k = t[0]
        if k == 'i':
            return t[1]
        f = getattr(self, 't_' + k, None)
        if f is None:
            raise Undefined('value %s' % self.eng.show(t)[:120])
        if k in CHEAP:
            return f(t)
        d = self.deps(t)
        if d is None:
            return f(t)
        b = self.bound
        key = (id(t),) + tuple([b.get(x) for x in d])
        try:
            return self.memo[key]
        except KeyError:
            r = self.memo[key] = f(t)
            return r
        except TypeError:
            return f(t)

    def t_i(self, t):
        return t[1]

    t_s = t_i

    def t_null(self, t):
        return 0

    def t_bq(self, t):
        if t in self.bound:
            return self.bound[t]
        raise Undefined('unbound position')

    t_bv = t_bq
    t_acc = t_bq

    def t_accj(self, t):
        v = self.bound.get(t, self)
        if v is self or v is None:
            raise Undefined('accumulator')
        return v

    def t_lv(self, t):
        v = self.lvs.get(t)
        if v is None:
            raise Undefined('loop variable')
        if callable(v):
            v = v()
            self.lvs[t] = v
        return v

    def t_sym(self, t):
        if t[1] == 'this':
            return self.this
        if t[1] in self.params:
            return self.params[t[1]]
        raise Undefined('parameter %s' % t[1])

    def t_this(self, t):
        return self.this

    def t_deref(self, t):
        x = t[1]
        if x[0] == 'sym' and x[1] in self.params:
            v = self.params[x[1]]
            if isinstance(v, tuple) and v[0] == 'P':
                return self.heap.initial(v)
            return v
        v = self.t(x)
        if isinstance(v, tuple) and v[0] == 'P':
            return self.heap.initial(v)
        if isinstance(v, tuple) and v[0] == 'V':
            return v[1]
        raise Undefined('pointee %s' % self.eng.show(t)[:80])

    def t_fld(self, t):
        return self.field(self.t(t[1]), t[2])

    def field(self, b, f):
        if isinstance(b, tuple) and len(b) == 2 and b[0] == 'V':
            b = b[1]            # through a pointer
        if isinstance(b, dict) and f in b:
            v = b[f]
            if v is None:
                raise Undefined('field %s' % f)
            return v
        if isinstance(b, tuple) and b[0] == 'tok':
            return ('tok', b, f)
        raise Undefined('field %s' % f)

    def t_st(self, t):
        d = {}
        for f, x in t[2]:
            if x[0] == 'undef':
                d[f] = None
                continue
            d[f] = self.t(x)
        return d

    def t_upd(self, t):
        b = dict(self.t(t[1]))
        for f, x in t[2]:
            b[f] = self.t(x)
        return b

    def t_gv(self, t):
        for g, x in t[1]:
            if self.n(g):
                return self.t(x)
        raise Undefined('no alternative')

    def t_add(self, t):
        return self.t(t[1]) + self.t(t[2])

    def t_op(self, t):
        if t[1] in ('+', '-', '*'):
            a, b = self.t(t[2]), self.t(t[3])
            return a + b if t[1] == '+' else a - b if t[1] == '-' else a * b
        raise Undefined('operation %s' % t[1])

    def t_trunc(self, t):
        return self.t(t[2]) & ((1 << t[1][1]) - 1)

    def t_last(self, t):
        raise Undefined('last position')

    def t_size(self, t):
        return len(self.positions(t[1]))

    def t_slen(self, t):
        v = self.t(t[1])
        if isinstance(v, str):
            return len(v)
        raise Undefined('length')

    def t_elem(self, t):
        return self.elem(t[1], t[2])

    def t_count(self, t):
        b = self.bq(t[2])
        return sum(1 for i in self.positions(t[1]) if self.under(b, i, self.n, t[2]))

    def t_fi(self, t):
        b = self.bq(t[2])
        for i in self.positions(t[1]):
            if self.under(b, i, self.n, t[2]):
                return i
        raise Undefined('no first element')

    def t_sum(self, t):
        b = self.bq(t[2])
        return sum(self.under(b, i, self.t, t[2]) for i in self.positions(t[1]))

    def t_fold(self, t):
        n = self.bq(t[3])[1]
        cur = self.t(t[2])
        for i in self.positions(t[1]):
            cur = self.under(('acc', n), cur, lambda x: self.under(('bq', n), i, self.t, x), t[3])
        return cur

    def t_foldj(self, t):
        k = ('own', id(t))
        r = self.bqs.get(k)
        if r is None:
            x = set()
            for _, st in t[2]:
                x |= self.free(st)
            r = self.bqs[k] = (min(x), t)
        n = r[0]
        cur = [self.opt(i0) for i0, _ in t[2]]
        for i in self.positions(t[1]):
            old = {}
            for j, c in enumerate(cur):
                key = ('accj', n, I(j))
                old[key] = self.bound.get(key, self)
                self.bound[key] = c
            try:
                cur = self.under(('bq', n), i, lambda x: [self.opt(st) for _, st in x], t[2])
            finally:
                for key, o in old.items():
                    if o is self:
                        del self.bound[key]
                    else:
                        self.bound[key] = o
        v = cur[t[3][1]]
        if v is None:
            raise Undefined('accumulated value')
        return v

    def opt(self, t):
        if t[0] == 'undef':
            return None
        try:
            return self.t(t)
        except Undefined:
            return None

    # containers
    def t_empty(self, t):
        return FMap()

    def t_vec(self, t):
        x = t[1][0] if t[1] else None
        if x and x[0] == 'elem' and all(y == ('elem', x[1], ('i', i)) for i, y in enumerate(t[1])):
            v = self.t(x[1])        # every byte of one array: the array itself
            if isinstance(v, int):
                return v
        if len(t[1]) == GIDLEN and x != t[1][1]:
            v = [GARBAGE if y == ('undef',) else self.t(y) for y in t[1]]
            return gnumber(v) if all(isinstance(y, int) for y in v) else v
        return [self.t(x) for x in t[1]]

    def bytes(self, t):
        """Bytes of a gid (or of a sequence of bytes)."""
        if t[0] == 'vslice':
            v = self.bytes(t[1])
            a, b = self.at(v, t[2]), self.at(v, t[3])
            if not 0 <= a <= b <= len(v):
                raise OutOfBounds('bytes %s..%s of %d' % (a, b, len(v)))
            return v[a:b]
        if t[0] == 'vec':
            return [GARBAGE if y == ('undef',) else self.t(y) for y in t[1]]
        v = self.t(t)
        if isinstance(v, dict) and set(v) == {'data'}:
            v = v['data']
        if isinstance(v, int):
            return gbytes(v)
        if isinstance(v, list) and all(isinstance(x, int) for x in v):
            return v
        raise Undefined('bytes of %s' % self.eng.show(t)[:80])

    def t_partial(self, t):
        v, w = list(self.bytes(t[1])), self.bytes(t[2])
        n, d, s = self.t(t[3]), self.t(t[4]), self.t(t[5])
        if not (0 <= n and 0 <= d and d + n <= len(v) and 0 <= s and s + n <= len(w)):
            raise OutOfBounds('copy of %s bytes' % n)
        v[d:d + n] = w[s:s + n]
        return gnumber(v) if len(v) == GIDLEN else v

    def t_memcmp(self, t):
        if len(t) < 6:
            raise Undefined('memcmp')
        v, w = self.bytes(t[1]), self.bytes(t[2])
        n, d, s = self.t(t[3]), self.t(t[4]), self.t(t[5])
        if not (0 <= n and 0 <= d and d + n <= len(v) and 0 <= s and s + n <= len(w)):
            raise OutOfBounds('comparison of %s bytes' % n)
        v, w = v[d:d + n], w[s:s + n]
        return -1 if v < w else 1 if v > w else 0

    def t_vpush(self, t):
        return self.lst(t[1]) + [self.t(t[2])]

    def lst(self, V):
        v = self.t(V)
        if not isinstance(v, list):
            raise Undefined('list %s' % self.eng.show(V)[:80])
        return v

    def at(self, v, pos):
        if pos == ('last',):
            return len(v) - 1
        if pos == ('first',):
            return 0
        return self.t(pos)

    def t_verase(self, t):
        v = self.lst(t[1])
        i = self.at(v, t[2])
        if not 0 <= i < len(v):
            raise OutOfBounds('erase %s of %d' % (i, len(v)))
        return v[:i] + v[i + 1:]

    def t_vupd(self, t):
        v = self.t(t[1])
        i = self.at(v, t[2])
        if isinstance(v, FMap):
            k = v.keyat(i)
            w = FMap(v)
            w[k] = self.t(t[3])['second']
            return w
        if isinstance(v, int):
            b = gbytes(v)
            if not 0 <= i < len(b):
                raise OutOfBounds('write of byte %s' % i)
            b[i] = self.t(t[3])
            return gnumber(b)
        if not isinstance(v, list):
            raise Undefined('list %s' % self.eng.show(t[1])[:80])
        if not 0 <= i < len(v):
            raise OutOfBounds('write %s of %d' % (i, len(v)))
        return v[:i] + [self.t(t[3])] + v[i + 1:]

    def t_vfilter(self, t):
        v = self.lst(t[1])
        b = self.bq(t[2])
        return [x for i, x in enumerate(v) if self.under(b, i, self.n, t[2])]

    def t_vcat(self, t):
        return self.lst(t[1]) + self.lst(t[2])

    def t_vslice(self, t):
        v = self.lst(t[1])
        return v[self.at(v, t[2]):self.at(v, t[3])]

    def t_vfill(self, t):
        return [copyv(self.t(t[2])) for _ in range(self.t(t[1]))]

    def t_gidkey(self, t):
        return ('g', self.t(t[1]))

    def t_mget(self, t):
        m, k = self.fmap(t[1]), self.t(t[2])
        if k not in m:
            raise OutOfBounds('missing key')
        return m[k]

    def fmap(self, M_):
        m = self.t(M_)
        if not isinstance(m, FMap):
            raise Undefined('map %s' % self.eng.show(M_)[:80])
        return m

    def t_map(self, t):
        m = FMap(self.fmap(t[1]))
        new = []
        for k, v in t[2]:
            try:
                kv = self.t(k)
            except (Undefined, OutOfBounds):
                if not self.untouched(t[1], k, v):
                    raise
                continue
            new.append((kv, self.absent(v)))
        for k, v in new:
            if v is None:
                m.pop(k, None)
            else:
                m[k] = v
        return m

    def untouched(self, base, k, v):
        """The entry of a map update leaves the map as it was."""
        if v in (('absent',), ('mget', base, k)):
            return True
        if v[0] == 'gv':
            return all(self.untouched(base, k, x) or not self.n(g) for g, x in v[1])
        if v[0] == 'map':
            return self.untouched(base, k, v[1]) and all(self.untouched(v[1], k2, x) for k2, x in v[2])
        return False

    def absent(self, v):
        if v[0] == 'gv':
            for g, x in v[1]:
                if self.n(g):
                    return self.absent(x)
            raise Undefined('no alternative')
        return None if v[0] == 'absent' else self.t(v)

    def t_app(self, t):
        if t[1] == '()':
            f = self.t(t[2])
            if callable(f):
                return f(*[self.t(x) for x in t[3:]])
        raise Undefined('application %s' % self.eng.show(t)[:80])

    # strings and pointers
    def t_cptr(self, t):
        return ('CS', self.t(t[1]))

    def t_strof(self, t):
        v = self.t(t[1])
        if len(t) == 2 and isinstance(v, tuple) and v[0] == 'CS':
            return v[1]
        raise Undefined('string from %s' % self.eng.show(t)[:80])

    def st(self, t):
        v = self.t(t)
        if isinstance(v, tuple) and v[0] == 'CS':
            v = v[1]
        if not isinstance(v, str):
            raise Undefined('text %s' % self.eng.show(t)[:80])
        return v

    def t_cat(self, t):
        return ''.join(self.st(x) for x in t[1])

    def t_substr(self, t):
        s, p = self.st(t[1]), self.t(t[2])
        if p > len(s):
            raise OutOfBounds('text from %s of %d' % (p, len(s)))
        return s[p:] if t[3] == ('npos',) else s[p:p + self.t(t[3])]

    def find(self, i):
        return 2 ** 64 - 1 if i < 0 else i

    def t_sfind(self, t):
        return self.find(self.st(t[1]).find(self.st(t[2])))

    def t_sfindp(self, t):
        return self.find(self.st(t[1]).find(self.st(t[2]), self.t(t[3])))

    def t_srfind(self, t):
        s, x = self.st(t[1]), self.st(t[2])
        return self.find(s.rfind(x) if t[3] == ('npos',) else s.rfind(x, 0, self.t(t[3]) + len(x)))

    def t_srfind0(self, t):
        return 0 if self.st(t[1]).startswith(self.st(t[2])) else 2 ** 64 - 1

    def t_sat(self, t):
        s = self.st(t[1])
        i = len(s) - 1 if t[2] == ('lastch',) else self.t(t[2])
        if not 0 <= i <= len(s):
            raise OutOfBounds('character %s of %d' % (i, len(s)))
        return ord(s[i]) if i < len(s) else 0

    def t_chr(self, t):
        return chr(self.t(t[1]))

    def t_tostr(self, t):
        return str(self.t(t[1]))

    def t_scmpne(self, t):
        return -1 if self.st(t[1]) < self.st(t[2]) else 1

    def t_scmp(self, t):
        x, p, n = self.st(t[1]), self.t(t[2]), self.t(t[3])
        x, y = x[p:p + n], self.st(t[4])
        return (x > y) - (x < y)

    def t_sncmp(self, t):
        n = self.t(t[3])
        x, y = self.st(t[1])[:n], self.st(t[2])[:n]
        return (x > y) - (x < y)

    def t_vins(self, t):
        v = self.lst(t[1])
        i = 0 if t[2] == ('begin',) else self.at(v, t[2])
        if not 0 <= i <= len(v):
            raise OutOfBounds('insertion at %s of %d' % (i, len(v)))
        return v[:i] + [self.t(t[3])] + v[i:]

    def t_vresize(self, t):
        v, n = self.lst(t[1]), self.t(t[2])
        return v[:n] + [copyv(self.t(t[3])) for _ in range(n - len(v))]

    def t_merase(self, t):
        m = FMap(self.fmap(t[1]))
        del m[m.keyat(self.t(t[2]))]
        return m

    def t_ptrto(self, t):
        return ('V', self.t(t[1]))

    def t_ptr(self, t):
        return self.loc(t[1])

    def t_at(self, t):
        return self.loc(t[1])

    def t_aptr(self, t):
        p = self.loc(t[1])
        if p[0] == 'V':
            return p
        return ('P', p[1], step(p[2], self.t(t[2])))

    def inside(self, t):
        return t[0] == 'ptr' and t[1][0] == ('this',)

    def place(self, l):
        """Which element of the cache a location is: two elements may be equal without being the same."""
        out = ()
        for i, p in enumerate(l[1]):
            if p[0] == 'f':
                out += (p[1],)
            elif p[0] == 'at' and p[1] == ('last',):
                out += (('at', len(self.loc((l[0], l[1][:i]))[1]) - 1),)
            elif p[0] == 'at':
                out += (('at', self.t(p[1])),)
            elif p[0] == 'k':
                out += (('at', sorted(self.loc((l[0], l[1][:i]))[1]).index(self.t(p[1]))),)
            else:
                raise Undefined('path %s' % (p[0],))
        return out

    def walk(self, v, path):
        for p in path:
            if p[0] == 'f':
                v = self.field(v, p[1])
            elif p[0] == 'at':
                i = len(v) - 1 if p[1] == ('last',) and v else self.t(p[1])
                v = v.at(i) if isinstance(v, FMap) else v[i]
            elif p[0] == 'k':
                v = v[self.t(p[1])]
            else:
                raise Undefined('path %s' % (p[0],))
        return v

    def loc(self, l):
        """Address of a location, or the value of a place inside the cache."""
        root, path = l
        if root[0] == 'this':
            return ('V', self.walk(self.this, path))
        if root[0] == 't':
            return ('V', ('tok', 'temporary'))
        if root[0] != 'm':
            raise Undefined('location %s' % (root[0],))
        b = self.t(root[1])
        if not (isinstance(b, tuple) and b[0] == 'P'):
            if isinstance(b, tuple) and b[0] == 'V':
                return ('V', self.walk(b[1], path))
            if b == 0:
                raise Misuse('no access through a null pointer', 'access through a null pointer')
            raise Undefined('location in %s' % self.eng.show(root[1])[:80])
        out = b[2]
        for p in path:
            if p[0] == 'f':
                out += (p[1],)
            elif p[0] == 'at':
                out = step(out, self.t(p[1]))
            else:
                raise Undefined('path %s' % (p[0],))
        return ('P', b[1], out)

    def t_res(self, t):
        return self.heap.result(self.reskey(t))

    def reskey(self, t):
        return t[1:3] + tuple(self.t(x) for x in t[3:])

    def t_outp(self, t):
        return self.heap.after(self.reskey(t[1]), t[2][1])

    def t_lexcmp(self, t):
        x, y = self.order(t[1]), self.order(t[2])
        return -1 if x < y else 1 if x > y else 0

    def order(self, t):
        v = self.t(t)
        return v['data'] if isinstance(v, dict) and set(v) == {'data'} else v

    # -- conditions ----------------------------------------------------------
    def n(self, n):
        if n < 2:
            return n == 1
        d = self.deps(n)
        if d is None:
            return self.n0(n)
        b = self.bound
        key = (-n,) + tuple([b.get(x) for x in d])
        try:
            return self.memo[key]
        except KeyError:
            r = self.memo[key] = self.n0(n)
            return r

    def n0(self, n):
        M = self.eng.M
        while n > 1:
            lv, ent, d = M.nodes[n]
            a = M.vars[lv]
            try:
                key = self.atom(a, ent)
            except (Undefined, OutOfBounds):
                # matters only if the answer depends on it
                rs = {self.n(c) for c in {c for _, c in ent} | {d}}
                if len(rs) > 1:
                    raise
                return rs.pop()
            n = d
            for k, c in ent:
                if k == key:
                    n = c
                    break
        return n == 1

    def atom(self, a, ent):
        k = a[0]
        if k == 'val':
            v = self.t(a[1])
            if isinstance(v, bool):
                v = int(v)
            for key, _ in ent:
                if key[0] in ('i', 's') and key[1] == v or key[0] == 'null' and v == 0:
                    return key
            return None
        if k == 'eq' and self.inside(a[1]) and self.inside(a[2]):
            return 1 if self.place(a[1][1]) == self.place(a[2][1]) else 0
        if k == 'eq':
            return 1 if norm(self.t(a[1])) == norm(self.t(a[2])) else 0
        if k == 'has':
            return 1 if self.t(a[2]) in self.fmap(a[1]) else 0
        if k == 'any':
            b = self.bq(a[2])
            for i in self.positions(a[1]):
                if self.under(b, i, self.n, a[2]):
                    return 1
            return 0
        if k == 'cmp':
            x, y = self.t(a[1]), self.t(a[2]) + a[3]
            return '<' if x < y else '>' if x > y else '='
        if k == 'slt':
            return 1 if self.t(a[1]) < self.t(a[2]) else 0
        if k == 'lexlt' and len(a) == 3:
            return 1 if self.order(a[1]) < self.order(a[2]) else 0
        if k == 'lexlt':
            return 1 if self.bytes(a[1]) < self.bytes(a[2]) else 0
        raise Undefined('condition %s' % self.eng.show(a)[:100])


def mined(eng, outs=()):
    """Constants the conditions compare texts, characters and quantities with: (texts, numbers)."""
    strs, nums = set(), set()
    seen, keep, chars = set(), [], {}

    def go(t):
        stack = [t]
        while stack:
            x = stack.pop()
            if not isinstance(x, tuple) or id(x) in seen:
                continue
            seen.add(id(x))
            keep.append(x)
            if len(x) == 2 and x[0] == 's' and isinstance(x[1], str):
                strs.add(x[1])
            elif len(x) == 3 and x[0] == 'trunc' and isinstance(x[1], tuple) and isinstance(x[1][1], int) and x[1][1] <= 8:
                nums.add(1 << x[1][1])
            stack.extend(x)

    def number(k):
        if isinstance(k, tuple) and len(k) == 2 and k[0] == 'i' and isinstance(k[1], int) and 2 < abs(k[1]) <= 512:
            nums.add(abs(k[1]))
    M = eng.M
    for a in M.vars:
        go(a)
        if a[0] == 'cmp' and isinstance(a[3], int) and 2 < abs(a[3]) <= 512:
            nums.add(abs(a[3]))
        if a[0] == 'cmp':
            number(a[1])
            number(a[2])
    for nd in M.nodes[2:]:
        a = M.vars[nd[0]]
        for k, _ in nd[1]:
            if isinstance(k, tuple) and k[:1] == ('s',):
                strs.add(k[1])
            elif a[0] == 'val' and isinstance(k, tuple) and k[:1] == ('i',):
                if a[1][0] == 'sat' or a[1][0] == 'chr':
                    if 31 < k[1] < 127:
                        strs.add(chr(k[1]))
                        if a[1][0] == 'sat' and a[1][2][0] == 'i':
                            chars.setdefault(a[1][1], {}).setdefault(a[1][2][1], set()).add(chr(k[1]))
                elif a[1][0] not in ('res', 'outp', 'trunc'):
                    number(k)
    for d in chars.values():
        if 1 < max(d) + 1 < 40:
            strs.add(''.join(sorted(d.get(i, 'q'))[0] for i in range(max(d) + 1)))
    for k, st, v in outs:
        go(v)
        go(st.ev)
    return {x for x in strs if len(x) < 40 and '%' not in x}, nums


# ------------------------------------------------------------------- heap
OK, ERROR, BAD_ALLOC, INVALID = 0, 1, 10, 11


def zero_sa():
    return {'size': 0, 'data': 0, 'allocator': 0}


def zero_info():
    return {'node_name': 0, 'node_namespace': 0, 'topic_type': 0, 'topic_type_hash': 0, 'endpoint_type': 0,
            'endpoint_gid': 0, 'qos_profile': 0}


class Heap:
    """Objects behind pointers, and the contracts of the library functions on them."""

    def __init__(self, outcome):
        self.outcome = outcome      # result key -> outcome or None for success
        self.objs = {}
        self.first = {}
        self.live = {}              # block id -> description
        self.known = {}             # result key -> value
        self.post = {}              # (result key, argument) -> content
        self.trace = []
        self.allocator = ('alloc', 'caller')

    def obj(self, name, v):
        self.objs[name] = v
        self.first[name] = copyv(v)
        return ('P', name, ())

    def block(self, key, v, what):
        self.objs[key] = v
        self.first[key] = copyv(v)
        self.live[key] = what
        return ('P', key, ())

    def initial(self, p):
        if p[1] not in self.first:
            raise Undefined('contents of memory that does not exist')
        return self.walk(self.first[p[1]], p[2])

    def walk(self, v, path):
        for p in path:
            if isinstance(p, str):
                if isinstance(v, list) and v:
                    v = v[0]        # a pointer to an array is one to its first element
                if not isinstance(v, dict) or p not in v:
                    raise Undefined('field %s' % p)
                v = v[p]
            elif isinstance(v, list):
                if not 0 <= p < len(v):
                    raise Misuse('inside the arrays', 'element %d of an array of %d is accessed' % (p, len(v)))
                v = v[p]
            elif p != 0:
                raise Undefined('index')
        return v

    def get(self, p):
        if p == 0:
            raise Misuse('no access through a null pointer', 'access through a null pointer')
        if p[0] == 'V':
            return p[1]
        if p[0] != 'P':
            raise Undefined('pointee')
        if p[1] not in self.objs:
            raise Misuse('no use after release', 'released memory is accessed')
        return self.walk(self.objs[p[1]], p[2])

    def rec(self, p):
        v = self.get(p)
        return v[0] if isinstance(v, list) and v else v

    def set(self, p, v):
        if p == 0:
            raise Misuse('no access through a null pointer', 'write through a null pointer')
        if p[0] != 'P':
            raise Undefined('target of a write')
        if p[1] not in self.objs:
            raise Misuse('no use after release', 'released memory is written')
        path = p[2]
        if not path and isinstance(self.objs[p[1]], list) and not isinstance(v, list):
            path = (0,)
        while path and path[-1] == 0 and not isinstance(self.walk(self.objs[p[1]], path[:-1]), list):
            path = path[:-1]
        if not path:
            self.objs[p[1]] = copyv(v)
            return
        b = self.walk(self.objs[p[1]], path[:-1])
        if isinstance(b, list) and b and isinstance(path[-1], str):
            b = b[0]
        if isinstance(b, list):
            if not (isinstance(path[-1], int) and 0 <= path[-1] < len(b)):
                raise Misuse('inside the arrays', 'element %s of an array of %d is written' % (path[-1], len(b)))
        elif not isinstance(b, dict):
            raise Undefined('target of a write')
        b[path[-1]] = copyv(v)

    # results
    def result(self, key):
        if key in self.known:
            return self.known[key]
        f = LIB.get(key[0])
        if f is None or f[0] is None:
            raise Undefined('result of %s' % (key[0],))
        return f[0](self, key, self.outcome(key))

    def after(self, key, i):
        if (key, i) in self.post:
            return self.post[(key, i)]
        raise Undefined('contents after %s' % (key[0],))

    def call(self, key, args):
        f = LIB.get(key[0])
        if f is None:
            raise Undefined('call of %s' % (key[0],))
        oc = self.outcome(key)
        self.trace.append((key, args, oc))
        r = f[1](self, key, args, oc)
        self.known[key] = r
        for i, a in enumerate(args):
            if isinstance(a, tuple) and a[0] == 'P' and a[1] in self.objs:
                self.post[(key, i)] = copyv(self.walk(self.objs[a[1]], a[2]))
        return r

    def use_alloc(self, a, q):
        v = a
        if isinstance(a, tuple) and a[0] == 'P':
            v = self.get(a)
        if v != self.allocator:
            raise Misuse('the caller\'s allocator is used', '%s is given another allocator than the caller\'s' % q)

    def cstr(self, p):
        if isinstance(p, tuple) and p[0] == 'CS':
            return p[1][1] if isinstance(p[1], tuple) and p[1][0] == 'V' else p[1]
        if isinstance(p, tuple) and p[0] == 'P':
            v = self.get(p)
            if isinstance(v, str):
                return v
        if p == 0:
            raise Misuse('no access through a null pointer', 'a null string is copied')
        raise Undefined('string argument')

    def free(self, p):
        if p == 0:
            return
        if p[0] != 'P' or p[1] not in self.live or p[2] not in ((), (0,)):
            raise Misuse('released once', 'memory is released twice or was not allocated')
        del self.live[p[1]]
        del self.objs[p[1]]


def sa_init(h, key, a, oc):
    s = h.rec(a[0])
    h.use_alloc(a[2], key[0])
    if oc:
        return oc
    if not isinstance(s, dict):
        raise Undefined('string array')
    n = a[1]
    s.update(size=n, data=h.block(key, [0] * n, 'string array') if n else 0, allocator=h.allocator)
    return OK


def sa_fini(h, key, a, oc):
    s = h.rec(a[0])
    fini_sa(h, s)
    return oc or OK


def fini_sa(h, s):
    if s['size'] and s['data'] != 0:
        for x in h.get(s['data']):
            h.free(x)
        h.free(s['data'])
    s.update(size=0, data=0)


def strdup(h, key, a, oc):
    h.use_alloc(a[1], key[0])
    s = h.cstr(a[0])
    if oc:
        return 0
    return h.block(key, s, 'copy of "%s"' % s)


def nt_init(h, key, a, oc):
    s = h.rec(a[0])
    h.use_alloc(a[2], key[0])
    if oc:
        return oc
    n = a[1]
    s['names'].update(size=n, data=h.block((key, 'names'), [0] * n, 'names') if n else 0, allocator=h.allocator)
    s['types'] = h.block((key, 'types'), [zero_sa() for _ in range(n)], 'types') if n else 0
    return OK


def nt_fini(h, key, a, oc):
    s = h.rec(a[0])
    if s['types'] != 0:
        for x in h.get(s['types']):
            fini_sa(h, x)
        h.free(s['types'])
    s['types'] = 0
    fini_sa(h, s['names'])
    return oc or OK


def ei_init(h, key, a, oc):
    s = h.rec(a[0])
    h.use_alloc(a[2], key[0])
    if oc:
        return oc
    n = a[1]
    s.update(size=n, info_array=h.block(key, [zero_info() for _ in range(n)], 'endpoint array'))
    return OK


def ei_fini(h, key, a, oc):
    s = h.rec(a[0])
    h.use_alloc(a[1], key[0])
    if s['info_array'] != 0:
        for x in h.get(s['info_array']):
            for f in ('node_name', 'node_namespace', 'topic_type'):
                h.free(x[f])
        h.free(s['info_array'])
    s.update(size=0, info_array=0)
    return oc or OK


def info_fini(h, key, a, oc):
    x = h.rec(a[0])
    h.use_alloc(a[1], key[0])
    for f in ('node_name', 'node_namespace', 'topic_type'):
        h.free(x[f])
    h.set(a[0], zero_info())
    return oc or OK


def set_str(field):
    def f(h, key, a, oc):
        x = h.rec(a[0])
        h.use_alloc(a[2], key[0])
        s = h.cstr(a[1])
        if oc:
            return oc
        x[field] = h.block(key, s, '%s "%s"' % (field, s))
        return OK
    return f


def set_val(field, deref=False):
    def f(h, key, a, oc):
        x = h.rec(a[0])
        if oc:
            return oc
        v = h.rec(a[1]) if deref else a[1]
        if field == 'endpoint_gid':
            if a[2] != 16:
                raise Misuse('all bytes of the gid', '%s of 16 gid bytes are handed over' % a[2])
            v = v['data'] if isinstance(v, dict) else v
        x[field] = v
        return OK
    return f


def status(h, key, oc):
    return oc or OK


def logged(h, key, a, oc):
    return ('text',)


def convert(h, key, a, oc):
    return a[0] if a[0] in (0, 10, 11) else 1


LIB = {
    'rcutils_string_array_init': (status, sa_init),
    'rcutils_string_array_fini': (status, sa_fini),
    'rcutils_strdup': (lambda h, k, oc: 0 if oc else ('P', k, ()), strdup),
    'rmw_names_and_types_init': (status, nt_init),
    'rmw_names_and_types_fini': (status, nt_fini),
    'rmw_topic_endpoint_info_array_init_with_size': (status, ei_init),
    'rmw_topic_endpoint_info_array_fini': (status, ei_fini),
    'rmw_topic_endpoint_info_fini': (status, info_fini),
    'rmw_topic_endpoint_info_set_node_name': (status, set_str('node_name')),
    'rmw_topic_endpoint_info_set_node_namespace': (status, set_str('node_namespace')),
    'rmw_topic_endpoint_info_set_topic_type': (status, set_str('topic_type')),
    'rmw_topic_endpoint_info_set_topic_type_hash': (status, set_val('topic_type_hash', True)),
    'rmw_topic_endpoint_info_set_endpoint_type': (status, set_val('endpoint_type')),
    'rmw_topic_endpoint_info_set_gid': (status, set_val('endpoint_gid', True)),
    'rmw_topic_endpoint_info_set_qos_profile': (status, set_val('qos_profile', True)),
    'rmw_get_zero_initialized_topic_endpoint_info': (lambda h, k, oc: zero_info(), lambda h, k, a, oc: zero_info()),
    'rmw_get_zero_initialized_names_and_types': (lambda h, k, oc: {'names': zero_sa(), 'types': 0}, lambda h, k, a, oc: {'names': zero_sa(), 'types': 0}),
    'rcutils_get_zero_initialized_string_array': (lambda h, k, oc: zero_sa(), lambda h, k, a, oc: zero_sa()),
    'rmw_get_zero_initialized_topic_endpoint_info_array': (lambda h, k, oc: {'size': 0, 'info_array': 0}, lambda h, k, a, oc: {'size': 0, 'info_array': 0}),
    'rosidl_get_zero_initialized_type_hash': (lambda h, k, oc: ('tok', 'zero hash'), lambda h, k, a, oc: ('tok', 'zero hash')),
    'rcutils_get_default_allocator': (lambda h, k, oc: ('alloc', 'default'), lambda h, k, a, oc: ('alloc', 'default')),
    'rcutils_allocator_is_valid': (lambda h, k, oc: 0 if oc else 1, lambda h, k, a, oc: 0 if oc or a[0] == 0 else 1),
    'rmw_names_and_types_check_zero': (status, lambda h, k, a, oc: oc or OK),
    'rmw_check_zero_rmw_string_array': (status, lambda h, k, a, oc: oc or OK),
    'rmw_topic_endpoint_info_array_check_zero': (status, lambda h, k, a, oc: oc or OK),
    'rmw_convert_rcutils_ret_to_rmw_ret': (lambda h, k, oc: convert(h, k, k[-1:], oc), convert),
    'rcutils_stub_log': (logged, lambda h, k, a, oc: 0),
    'rcutils_get_error_string': (lambda h, k, oc: {'str': ('tok', 'text')}, lambda h, k, a, oc: {'str': ('tok', 'text')}),
    'rmw_get_error_string': (lambda h, k, oc: {'str': ('tok', 'text')}, lambda h, k, a, oc: {'str': ('tok', 'text')}),
}
ALLOCATES = ('rcutils_string_array_init', 'rcutils_strdup', 'rmw_names_and_types_init', 'rmw_topic_endpoint_info_array_init_with_size',
             'rmw_topic_endpoint_info_set_node_name', 'rmw_topic_endpoint_info_set_node_namespace', 'rmw_topic_endpoint_info_set_topic_type')
VALIDATES = ('rcutils_allocator_is_valid', 'rmw_names_and_types_check_zero', 'rmw_check_zero_rmw_string_array',
             'rmw_topic_endpoint_info_array_check_zero')
RELEASES = ('rcutils_string_array_fini', 'rmw_names_and_types_fini', 'rmw_topic_endpoint_info_array_fini', 'rmw_topic_endpoint_info_fini')
CANFAIL = ALLOCATES + VALIDATES + RELEASES + tuple(k for k in LIB if k.startswith('rmw_topic_endpoint_info_set_') and k not in ALLOCATES)


class Play:
    """One instantiation of a summary."""

    def __init__(self, eng, outs, this, params, outcome=lambda key: None, setup=None):
        self.eng, self.outs = eng, outs
        self.heap = Heap(outcome)
        self.ev = Ev(eng, this, params)
        self.ev.heap = self.heap
        if setup:
            setup(self.heap, params)
        self.streams = {}
        self.log = []           # ('call', key, args) ('write', pointer) ('cb', term) ('lock', m) ('unlock', m) ('mut', path)

    def run(self):
        """Returns (kind, result, final cache) of the exit taken."""
        hit = [o for o in self.outs if self.ev.n(o[1].cond)]
        if not hit:
            return None
        if len(hit) > 1:
            raise Undefined('%d exits apply' % len(hit))
        k, s, v = hit[0]
        self.events(s.ev)
        self.exit = hit[0]
        this = s.mem.get(('this',))
        new = self.ev.t(this) if this is not None else self.ev.this
        val = None if v is None or v[0] in ('undef', 'lref') else self.ev.t(v)
        return k, val, new

    def events(self, evs):
        for e in evs:
            k = e[0]
            if k == 'call':
                key = self.ev.reskey(e[4])
                args = [self.ev.t(a) for a in e[3]]
                self.heap.call(key, args)
                self.log.append(('call', key, args, e[-1]))
            elif k == 'cb':
                self.log.append(('cb', e[1], e[2], e[-1]))
            elif k in ('lock', 'unlock'):
                self.log.append((k, e[1], e[-1]))
            elif k == 'mut':
                root, path = e[1]
                if root[0] == 'this':
                    self.log.append(('mut', path, e[-1]))
                    continue
                p = self.ev.loc(e[1])
                v = self.ev.t(e[2])
                self.heap.set(p, v)
                self.log.append(('write', p, e[-1]))
            elif k == 'loop':
                self.loop(e)
            elif k == 'out':
                self.output(e)
            else:
                raise Undefined('effect %s' % (k,))

    def output(self, e):
        """Output is kept as a list of (is it data, text)."""
        _, key, chunk, cur = e
        if chunk == ('new',):
            self.streams[key] = []
        elif chunk[0] == 'str':
            self.streams.setdefault(key, []).extend(self.pieces(chunk[1]))
        elif chunk[0] == 'gid':
            self.streams.setdefault(key, []).append((True, self.ev.t(chunk[1])))
        elif chunk[0] == 'fmt':
            v = self.ev.t(chunk[2])
            if isinstance(v, int) and 'char' in chunk[1]:
                self.streams.setdefault(key, []).append((False, chr(v & 255)))

    def pieces(self, t):
        if t[0] == 's':
            return [(False, t[1])]
        if t[0] == 'cat':
            return [x for p in t[1] for x in self.pieces(p)]
        if t[0] in ('cstr', 'cptr'):
            return self.pieces(t[1])
        if t[0] == 'ossstr':
            return list(self.streams.get(t[1], []))
        if t[0] == 'gv':
            for g, x in t[1]:
                if self.ev.n(g):
                    return self.pieces(x)
            raise Undefined('no alternative')
        return [(True, self.ev.st(t))]

    def loop(self, e):
        _, V, bv, paths, carr, cont, cur = e
        ev = self.ev
        saved = dict(ev.lvs)
        old = ev.bound.get(bv)
        env = {}
        outer = (dict(ev.lvs), dict(ev.bound))
        for c, b, init, step in carr:
            ev.lvs[b] = self.lazy(init, outer)
        try:
            for i in ev.positions(V):
                ev.bound[bv] = i
                if cont != 1 and not ev.n(cont):
                    break
                hit = [p for p in paths if p[0] in ('n', 'c') and ev.n(p[1])]
                if len(hit) > 1:
                    raise Undefined('%d iteration paths apply' % len(hit))
                if hit:
                    self.events(hit[0][2])
                scope = (dict(ev.lvs), dict(ev.bound))
                nxt = {b: self.lazy(step, scope) for c, b, init, step in carr}
                ev.lvs.update(nxt)
        finally:
            ev.lvs = saved
            if old is None:
                ev.bound.pop(bv, None)
            else:
                ev.bound[bv] = old

    def lazy(self, t, scope):
        """The value of t in an earlier scope, computed on demand."""
        if t[0] in ('it', 'aptr') or t == ('undef',):
            if t == ('undef',):
                def bad():
                    raise Undefined('loop variable')
                return bad
            t = t[2] if isinstance(t[2], tuple) and t[2][0] != 'begin' else I(0)

        def get():
            ev = self.ev
            lvs, bound = ev.lvs, ev.bound
            ev.lvs, ev.bound = dict(scope[0]), dict(scope[1])
            try:
                return ev.t(t)
            finally:
                ev.lvs, ev.bound = lvs, bound
        return get
