"""Contracts of the library functions the analysed code calls.

A model gets (engine, state, frame, fn, object location, args, call expr) and
returns [(state, value)]; a value ('lref', loc) denotes a reference result.
Only what the standard (or the rmw/rcutils documentation) guarantees is used.
Anything without a model is treated as an unknown call by the engine.
"""
from engine import (I, S, NULL, UNDEF, TRUE, FALSE, EMPTY, ABSENT, END, BEGIN, CONSTK, Unsupported, st_, st_fields,
                    cat)

REG = {}


def model(*names):
    def deco(f):
        for n in names:
            REG[n] = f
        return f
    return deco


MAPS = ('std::map', 'std::unordered_map', 'std::multimap')
SETS = ('std::set', 'std::unordered_set')
SEQS = ('std::vector', 'std::array', 'std::deque', 'std::list', 'std::initializer_list', 'std::span')
STRS = ('std::basic_string', 'std::basic_string_view')
PATH = 'std::filesystem::path'
STREAMS_IN = ('std::basic_ifstream', 'std::basic_istream', 'std::basic_ios', 'std::basic_fstream',
              'std::basic_istringstream')
ITERS = ('std::_Rb_tree_iterator', 'std::_Rb_tree_const_iterator', '__gnu_cxx::__normal_iterator',
         'std::__detail::_Node_iterator', 'std::__detail::_Node_const_iterator', 'std::_List_iterator',
         'std::_List_const_iterator', 'std::_Deque_iterator', 'std::reverse_iterator',
         'std::__detail::_Node_iterator_base')
LOCKS = ('std::lock_guard', 'std::unique_lock', 'std::scoped_lock', 'std::shared_lock')
PTRS = ('std::unique_ptr', 'std::shared_ptr')


def split_q(q):
    i = q.rfind('::')
    if '::operator' in q:
        i = q.index('::operator')
    return (q[:i], q[i + 2:]) if i >= 0 else ('', q)


def lookup(eng, fn):
    m = REG.get(fn.q)
    if m is not None:
        return m
    cls, name = split_q(fn.q)
    for group, tab in CLASSES:
        if cls in group:
            m = tab.get(name)
            if m is not None:
                return m
    if cls.startswith('rmw_dds_common::msg::') and name == 'operator==':
        return msg_eq
    if cls.startswith('rmw_dds_common::msg::') and name == 'operator!=':
        return lambda *a: [(s, a[0].mkbool(a[0].M.NOT(a[0].node(v)))) for s, v in msg_eq(*a)]
    return None


def V(eng, s, a):
    return eng.aval(s, a)


def L(eng, st, a):
    """Location of an argument (values are materialised)."""
    if a[0] == 'L':
        return st, a[1]
    n = sum(1 for r in st.mem if r[0] == 't')
    s = st.copy()
    root = ('t', ('arg', n), 99)
    s.mem[root] = a[1]
    return s, (root, ())


def ret(s, v):
    return [(s, v)]


def void(s):
    return [(s, UNDEF)]


def wr(eng, st, loc, v):
    s = st.copy()
    eng.write(s, loc, v)
    return s


# ------------------------------------------------------------------ strings
def strval(eng, st, v):
    """The character sequence a string-like value denotes."""
    k = v[0]
    if k == 'gv':
        return eng.mkgv([(g, strval(eng, st, x)) for g, x in v[1]], 200)
    if k == 'cptr':
        return v[1]
    if k in ('path',) or k in ('pjoin', 'pcat', 'papp'):
        return ('nstr', v)
    if k == 'i':
        return S(chr(v[1] & 0xff)) if v[1] else S('\0')
    if k in ('sym', 'fld', 'res', 'elem', 'deref', 'app', 'mget', 'lv') and v in eng.ptrterms:
        return ('cstr', v)
    if k == 'aptr':
        x = eng.peek(st, v[1])
        return ('cstrof', x, v[2])
    if k == 'ptr':
        x = eng.peek(st, v[1])
        return ('cstrof', x, I(0))
    return v


def sarg(eng, st, a, fn, i):
    v = V(eng, st, a)
    t = fn.params[i] if i < len(fn.params) else None
    if t is not None and t.k == 'ptr':
        def f(x):
            if x[0] == 'cptr':
                return x[1]
            if x[0] in ('aptr', 'ptr'):
                return strval(eng, st, x)
            return ('cstr', x)
        return eng.gvmap(v, f)
    if t is not None and t.noref.k == 'int':
        return eng.gvmap(v, lambda x: S(chr(x[1])) if x[0] == 'i' and 0 < x[1] < 128 else ('chr', x))
    return strval(eng, st, v)


def sadd(eng, a, b):
    return eng.gvmap2(a, b, lambda x, y: cat(x, y))


def str_size(eng, s):
    def f(x):
        if x[0] == 's':
            return I(len(x[1]))
        return ('slen', x)
    return eng.gvmap(s, f)


def substr(eng, s, pos, n):
    def f(x):
        if pos[0] == 'i' and x[0] == 's' and (n[0] == 'i' or n == ('npos',)):
            e = len(x[1]) if n == ('npos',) else pos[1] + n[1]
            return S(x[1][pos[1]:e])
        if pos == I(0) and n == ('npos',):
            return x
        return ('substr', x, pos, n)
    return eng.gvmap(s, f)


NPOS = (I(2 ** 64 - 1), I(-1))


def npos(v):
    return ('npos',) if v in NPOS else v


def strof(v, a=I(0), b=END):
    """The text made of the elements [a, b) of a sequence."""
    if v[0] == 'vec' and all(x[0] == 'i' for x in v[1]):
        i = 0 if a == BEGIN else a[1] if a[0] == 'i' else None
        j = len(v[1]) if b == END else b[1] if b[0] == 'i' else None
        if i is not None and j is not None:
            return S(''.join(chr(x[1] & 255) for x in v[1][i:j]))
    return ('strof', v) if a in (BEGIN, I(0)) and b == END else ('strof', v, a, b)


def range_text(eng, st, a, b):
    """The text of the characters [a, b), or None."""
    if a[0] not in ('it', 'aptr') or a[0] != b[0] or a[1] != b[1]:
        return None
    base = eng.read(st, a[1])
    if a[0] == 'aptr' and b[2] == eng.size_of(base):
        b = b[:2] + (END,)
    if ty_is_string(eng, base):
        if a[2] in (BEGIN, I(0)) and b[2] == END:
            return base
        if base[0] == 's' and (a[2] == BEGIN or a[2][0] == 'i') and (b[2] == END or b[2][0] == 'i'):
            return S(base[1][0 if a[2] == BEGIN else a[2][1]:None if b[2] == END else b[2][1]])
        return None
    return strof(base, a[2], b[2])


def string_ctor(eng, st, fr, fn, ty, args, e):
    args = [a for i, a in enumerate(args) if not (i < len(fn.params) and fn.params[i].rec == 'std::allocator')]
    n = len(args)
    if n == 0:
        return ret(st, S(''))
    p0 = fn.params[0]
    if n == 1:
        if p0.rec in STRS or p0.k == 'ptr' or p0.rec == 'std::initializer_list' or p0.k in ('ref', 'rref'):
            v = V(eng, st, args[0])
            if p0.rec == 'std::initializer_list':
                return ret(st, strof(v))
            return ret(st, sarg(eng, st, args[0], fn, 0))
    if n == 2:
        a, b = V(eng, st, args[0]), V(eng, st, args[1])
        if p0.k == 'ptr':
            if fn.params[1].k == 'int':
                x = sarg(eng, st, args[0], fn, 0)
                if x[0] == 'cstrof' and x[2] == I(0) and b == eng.size_of(x[1]):
                    return ret(st, strof(x[1]))
                return ret(st, substr(eng, x, I(0), b))
            if a[0] == 'aptr' and b[0] == 'aptr' and a[1] == b[1] and a[2] == I(0):
                base = eng.read(st, a[1])
                if b[2] == eng.size_of(base):
                    return ret(st, strof(base))
        if a[0] == 'it' and b[0] == 'it' and a[1] == b[1]:
            base = eng.read(st, a[1])
            if a[2] in (BEGIN, I(0)) and b[2] == END:
                if ty_is_string(eng, base):
                    return ret(st, base)
                return ret(st, strof(base))
            return ret(st, strof(base, a[2], b[2]))
        if a[0] == 'isb':
            return ret(st, ('content', a[1]))
        if p0.rec in STRS:
            return ret(st, substr(eng, strval(eng, st, a), b, ('npos',)))
        if p0.k == 'int':
            if a[0] == 'i' and b[0] == 'i' and 0 <= a[1] < 4096:
                return ret(st, S(chr(b[1]) * a[1]))
            return ret(st, ('sfill', a, b))
        return ret(st, ('strof', a, b))
    if n == 3 and p0.rec in STRS:
        return ret(st, substr(eng, strval(eng, st, V(eng, st, args[0])), V(eng, st, args[1]), npos(V(eng, st, args[2]))))
    raise Unsupported('string constructor at %s' % (eng.cur,))


def ty_is_string(eng, v):
    return v[0] in ('s', 'cat', 'tok', 'line', 'gstr', 'nstr', 'substr')


def s_assign(eng, st, fr, fn, obj, args, e):
    if len(args) == 2 and fn.params[0].k == 'ptr':
        v = substr(eng, sarg(eng, st, args[0], fn, 0), I(0), V(eng, st, args[1]))
    elif len(args) == 2:
        a, b = V(eng, st, args[0]), V(eng, st, args[1])
        v = range_text(eng, st, a, b)
        if v is None:
            raise Unsupported('string assign at %s' % (eng.cur,))
    else:
        v = sarg(eng, st, args[0], fn, 0)
    s = st.copy()
    if fn.params[0].k == 'rref':
        eng.move_out(s, fn, args[0])
    eng.write(s, obj, v)
    return ret(s, ('lref', obj))


def s_append(eng, st, fr, fn, obj, args, e):
    v = sarg(eng, st, args[0], fn, 0)
    if len(args) == 2 and fn.params[0].k == 'ptr':
        v = substr(eng, v, I(0), V(eng, st, args[1]))
    elif len(args) > 1:
        if fn.params[0].k == 'int':
            v = ('sfill', V(eng, st, args[0]), V(eng, st, args[1]))
            if v[1][0] == 'i' and v[2][0] == 'i' and 0 <= v[1][1] < 4096:
                v = S(chr(v[2][1] & 255) * v[1][1])
        elif fn.params[0].rec in STRS:
            v = substr(eng, v, V(eng, st, args[1]), npos(V(eng, st, args[2])) if len(args) > 2 else ('npos',))
        else:
            v = range_text(eng, st, V(eng, st, args[0]), V(eng, st, args[1]))
            if v is None:
                raise Unsupported('string append at %s' % (eng.cur,))
    return ret(wr(eng, st, obj, sadd(eng, eng.read(st, obj), v)), ('lref', obj))


def s_find(eng, st, fr, fn, obj, args, e):
    s = strval(eng, st, eng.read(st, obj))
    x = sarg(eng, st, args[0], fn, 0)
    pos = V(eng, st, args[1]) if len(args) > 1 else I(0)
    if len(args) > 2:
        x = substr(eng, x, I(0), V(eng, st, args[2]))

    def f(a, b):
        if a[0] == 's' and b[0] == 's' and pos[0] == 'i':
            r = a[1].find(b[1], pos[1])
            return NPOS[0] if r < 0 else I(r)
        return ('sfind', a, b) if pos == I(0) else ('sfindp', a, b, pos)
    return ret(st, eng.gvmap2(s, x, f))


def s_rfind(eng, st, fr, fn, obj, args, e):
    s = strval(eng, st, eng.read(st, obj))
    x = sarg(eng, st, args[0], fn, 0)
    pos = npos(V(eng, st, args[1])) if len(args) > 1 else ('npos',)

    def f(a, b):
        if a[0] == 's' and b[0] == 's':
            r = a[1].rfind(b[1]) if pos == ('npos',) else a[1].rfind(b[1], 0, pos[1] + len(b[1]))
            return NPOS[0] if r < 0 else I(r)
        return ('srfind0', a, b) if pos == I(0) else ('srfind', a, b, pos)
    return ret(st, eng.gvmap2(s, x, f))


def s_findof(eng, st, fr, fn, obj, args, e):
    s = strval(eng, st, eng.read(st, obj))
    x = sarg(eng, st, args[0], fn, 0)
    last = 'last' in fn.n
    pos = npos(V(eng, st, args[1])) if len(args) > 1 else ('npos',) if last else I(0)

    def f(a, b):
        if a[0] == 's' and b[0] == 's' and (pos[0] == 'i' or pos == ('npos',)) and len(args) < 3:
            js = [i for i, c in enumerate(a[1]) if (c in b[1]) != ('not' in fn.n) and
                  (pos == ('npos',) and last or pos[0] == 'i' and (i <= pos[1] if last else i >= pos[1]))]
            return NPOS[0] if not js else I(js[-1 if last else 0])
        return ('sfindof', fn.n, a, b, pos)
    return ret(st, eng.gvmap2(s, x, f))


def s_compare(eng, st, fr, fn, obj, args, e):
    s = strval(eng, st, eng.read(st, obj))
    if len(args) == 1:
        x = sarg(eng, st, args[0], fn, 0)
        return ret(st, eng.gvmap2(s, x, lambda a, b: scmp3(eng, a, b)))
    pos, n = V(eng, st, args[0]), npos(V(eng, st, args[1]))
    x = sarg(eng, st, args[2], fn, 2)
    if len(args) == 4:
        x = substr(eng, x, I(0), V(eng, st, args[3]))
    if len(args) == 5:
        x = substr(eng, x, V(eng, st, args[3]), npos(V(eng, st, args[4])))

    def f(a, b):
        if a[0] == 's' and b[0] == 's' and pos[0] == 'i' and (n == ('npos',) or n[0] == 'i'):
            return scmp3(eng, substr(eng, a, pos, n), b)
        if pos == I(0) and b[0] == 's' and n == I(len(b[1])):
            return ('scmp', a, pos, n, b)
        if pos == I(0) and b[0] == 'slen':
            return ('scmp', a, pos, n, b)
        return scmp3(eng, substr(eng, a, pos, n), b)
    return ret(st, eng.gvmap2(s, x, f))


def scmp3(eng, a, b):
    if a[0] == 's' and b[0] == 's':
        return I((a[1] > b[1]) - (a[1] < b[1]))
    e = eng.eq(a, b)
    if e == 1:
        return I(0)
    return eng.mkgv([(e, I(0)), (eng.M.NOT(e), ('scmpne', a, b))])


def s_substr(eng, st, fr, fn, obj, args, e):
    s = strval(eng, st, eng.read(st, obj))
    pos = V(eng, st, args[0]) if args else I(0)
    n = npos(V(eng, st, args[1])) if len(args) > 1 else ('npos',)
    return ret(st, substr(eng, s, pos, n))


def s_cstr(eng, st, fr, fn, obj, args, e):
    s = strval(eng, st, eng.read(st, obj))
    return ret(st, eng.gvmap(s, lambda x: ('cptr', x)))


def s_size(eng, st, fr, fn, obj, args, e):
    return ret(st, str_size(eng, strval(eng, st, eng.read(st, obj))))


def s_empty(eng, st, fr, fn, obj, args, e):
    return ret(st, eng.mkbool(eng.eq(strval(eng, st, eng.read(st, obj)), S(''))))


def s_clear(eng, st, fr, fn, obj, args, e):
    return void(wr(eng, st, obj, S('')))


def s_at(eng, st, fr, fn, obj, args, e):
    i = V(eng, st, args[0])
    return s_char(eng, st, obj, i)


def s_char(eng, st, obj, i):
    return ret(st, ('lref', (obj[0], obj[1] + (('ch', i),))))


def s_front(eng, st, fr, fn, obj, args, e):
    return s_char(eng, st, obj, I(0))


def s_back(eng, st, fr, fn, obj, args, e):
    return s_char(eng, st, obj, ('lastch',))


def smut(n, x, vals):
    if x[0] == 's':
        t = x[1]
        a = [v[1] if v[0] in ('i', 's') else None for v in vals]
        if n == 'pop_back' and t:
            return S(t[:-1])
        if n == 'erase' and len(a) in (1, 2) and all(isinstance(i, int) for i in a) and 0 <= a[0] <= len(t):
            k = a[1] if len(a) == 2 and a[1] >= 0 else len(t)
            return S(t[:a[0]] + t[a[0] + k:])
        if n == 'resize' and isinstance(a[0], int) and 0 <= a[0] <= 4096:
            c = chr(a[1]) if len(a) == 2 and isinstance(a[1], int) else '\0'
            return S((t + c * a[0])[:a[0]])
        if n == 'insert' and len(a) == 2 and isinstance(a[0], int) and isinstance(a[1], str) and 0 <= a[0] <= len(t):
            return S(t[:a[0]] + a[1] + t[a[0]:])
        if n == 'replace' and len(a) == 3 and isinstance(a[0], int) and isinstance(a[1], int) and isinstance(a[2], str) and 0 <= a[0] <= len(t):
            return S(t[:a[0]] + a[2] + t[a[0] + a[1]:])
    return ('smut', n, x) + vals


def s_mut(eng, st, fr, fn, obj, args, e):
    """In-place edits kept as an uninterpreted function of the old text."""
    s = strval(eng, st, eng.read(st, obj))
    if fn.n in ('erase', 'resize') and (not args or (len(args) == 1 and args[0][0] == 'V' and args[0][1] == I(0))):
        new = S('')
    else:
        vals = tuple(V(eng, st, a) for a in args)
        new = eng.gvmap(s, lambda x: smut(fn.n, x, vals))
    res = ('lref', obj)
    if fn.n in ('erase', 'insert', 'replace') and fn.ret.rec in ITERS:
        res = ('it', obj, ('smutpos',))
    return ret(wr(eng, st, obj, new), res if fn.n not in ('resize', 'pop_back') else UNDEF)


def s_starts(eng, st, fr, fn, obj, args, e):
    s = strval(eng, st, eng.read(st, obj))
    x = sarg(eng, st, args[0], fn, 0)
    if x[0] != 's':
        return ret(st, eng.mkbool(eng.M.lit(('startswith', s, x), (1,))))
    return ret(st, eng.mkbool(eng.startswith(s, x[1])))


def s_pushback(eng, st, fr, fn, obj, args, e):
    v = V(eng, st, args[0])
    v = S(chr(v[1])) if v[0] == 'i' else ('chr', v)
    return void(wr(eng, st, obj, sadd(eng, eng.read(st, obj), v)))


def nop(eng, st, fr, fn, obj, args, e):
    return void(st)


def s_identity(eng, st, fr, fn, obj, args, e):
    return ret(st, eng.read(st, obj))


def c_begin(eng, st, fr, fn, obj, args, e):
    return ret(st, ('it', obj, BEGIN))


def c_end(eng, st, fr, fn, obj, args, e):
    return ret(st, ('it', obj, END))


def s_insert(eng, st, fr, fn, obj, args, e):
    if len(args) == 2 and V(eng, st, args[0]) == I(0):
        x = sarg(eng, st, args[1], fn, 1)
        return ret(wr(eng, st, obj, sadd(eng, x, eng.read(st, obj))), ('lref', obj))
    if len(args) == 3 and V(eng, st, args[0]) == ('it', obj, END):
        x = range_text(eng, st, V(eng, st, args[1]), V(eng, st, args[2]))
        if x is not None:
            return ret(wr(eng, st, obj, sadd(eng, eng.read(st, obj), x)), ('opq', 'inserted', eng.cur))
    raise Unsupported('string insert at %s' % (eng.cur,))


STRTAB = {
    'operator=': s_assign, 'assign': s_assign, 'operator+=': s_append, 'append': s_append, 'find': s_find,
    'rfind': s_rfind, 'compare': s_compare, 'substr': s_substr, 'c_str': s_cstr, 'data': s_cstr, 'size': s_size,
    'length': s_size, 'empty': s_empty, 'clear': s_clear, 'operator[]': s_at, 'at': s_at, 'starts_with': s_starts,
    'swap': lambda *a: c_swap(*a), 'push_back': s_pushback, 'reserve': nop, 'shrink_to_fit': nop, 'begin': c_begin, 'end': c_end, 'cbegin': c_begin,
    'cend': c_end, 'operator basic_string_view': s_identity, 'front': s_front, 'back': s_back, 'insert': s_insert,
    'find_first_of': s_findof, 'find_last_of': s_findof, 'find_first_not_of': s_findof, 'find_last_not_of': s_findof,
    'pop_back': s_mut, 'erase': s_mut, 'resize': s_mut, 'replace': s_mut,
}


@model('std::operator+')
def m_plus(eng, st, fr, fn, obj, args, e):
    if len(args) != 2:
        return None
    t0, t1 = fn.params[0], fn.params[1]
    if t0.rec in ITERS or t1.rec in ITERS:
        return it_plus(eng, st, fr, fn, None, args, e)
    a, b = sarg(eng, st, args[0], fn, 0), sarg(eng, st, args[1], fn, 1)
    return ret(st, sadd(eng, a, b))


@model('std::to_string')
def m_tostring(eng, st, fr, fn, obj, args, e):
    v = V(eng, st, args[0])
    return ret(st, eng.gvmap(v, lambda x: S(str(x[1])) if x[0] == 'i' else ('tostr', x)))


# ----------------------------------------------------- generic comparisons
def is_c_string(t):
    return t is not None and t.k == 'ptr' and t.pointee is not None and t.pointee.d.get('bits') == 8


def geq(eng, st, a, b, ta, tb):
    """Equality of two objects as an MDD node."""
    if a[0] == 'gv' or b[0] == 'gv':
        return eng.M.ORs(*[eng.M.ANDs(ga, gb, geq(eng, st, xa, xb, ta, tb)) for ga, xa in eng.alts(a)
                           for gb, xb in eng.alts(b) if eng.M.AND(ga, gb)])
    if a[0] == 'it' and b[0] == 'it':
        return it_eq(eng, st, a, b)
    if a[0] == 'isb' or b[0] == 'isb':
        return eng.M.lit(('eq', a, b), (1,))
    if tb is not None and tb.k == 'nullptr' or b == NULL:
        return eng.M.NOT(callable_node(eng, a))
    if ta is not None and ta.k == 'nullptr' or a == NULL:
        return eng.M.NOT(callable_node(eng, b))
    if (ta is not None and ta.rec in STRS) or (tb is not None and tb.rec in STRS):
        a = a if (ta is not None and not is_c_string(ta)) else cs(a)
        b = b if (tb is not None and not is_c_string(tb)) else cs(b)
        return eng.eq(strval(eng, st, a), strval(eng, st, b))
    if (ta is not None and ta.rec == PATH):
        return eng.eq(topath(eng, st, a), topath(eng, st, b))
    return eng.eq(a, b)


def cs(x):
    if x[0] == 'cptr':
        return x[1]
    return ('cstr', x) if x[0] not in ('aptr', 'ptr') else x


def callable_node(eng, v):
    if v[0] == 'gv':
        return eng.M.ORs(*[eng.M.AND(g, callable_node(eng, x)) for g, x in v[1]])
    if v == NULL:
        return 0
    if v[0] in ('fn', 'clo', 'bind', 'ptr', 'aptr'):
        return 1
    if v[0] == 'st' and v[1] == 'uptr':
        return eng.node(st_fields(v)['p'])
    if v[0] == 'st':
        return 1
    return eng.M.NOT(eng.M.lit(('val', v), (NULL,)))


def it_eq(eng, st, a, b):
    if a[1] != b[1]:
        return eng.M.lit(('eq',) + tuple(sorted((a, b), key=eng.tid)), (1,))
    p, q = a[2], b[2]
    if p == q:
        return 1
    if p == END:
        p, q = q, p
    if p == BEGIN:
        p = I(0)
    if q == BEGIN:
        q = I(0)
    if p == q:
        return 1
    if q == END:
        if p[0] in ('key', 'fi', 'bv', 'last'):
            return 0
        c = eng.peek(st, a[1])
        return eng.intcmp('==', p, eng.size_of(c), True)
    if p[0] == 'key' and q[0] == 'key':
        return eng.eq(p[1], q[1])
    if p[0] in ('i', 'add', 'bv', 'lv') and q[0] in ('i', 'add', 'bv', 'lv'):
        return eng.intcmp('==', p, q, True)
    if p == ('last',) or q == ('last',):
        pass
    return eng.M.lit(('eq',) + tuple(sorted((p, q), key=eng.tid)), (1,))


@model('std::operator==', '__gnu_cxx::operator==', 'std::filesystem::operator==', 'std::_Rb_tree_iterator::operator==',
       'std::_Rb_tree_const_iterator::operator==', 'std::__detail::operator==')
def m_eq(eng, st, fr, fn, obj, args, e):
    if obj is not None:
        a, b = eng.read(st, obj), V(eng, st, args[0])
        ta, tb = fn.rectype, fn.params[0]
    else:
        a, b = V(eng, st, args[0]), V(eng, st, args[1])
        ta, tb = fn.params[0], fn.params[1]
    return ret(st, eng.mkbool(geq(eng, st, a, b, ta, tb)))


@model('std::operator!=', '__gnu_cxx::operator!=', 'std::filesystem::operator!=', 'std::_Rb_tree_iterator::operator!=',
       'std::_Rb_tree_const_iterator::operator!=', 'std::__detail::operator!=')
def m_ne(eng, st, fr, fn, obj, args, e):
    return [(s, eng.mkbool(eng.M.NOT(eng.node(v)))) for s, v in m_eq(eng, st, fr, fn, obj, args, e)]


@model('std::operator<', 'std::operator>', 'std::operator<=', 'std::operator>=')
def m_lt(eng, st, fr, fn, obj, args, e):
    op = fn.n[len('operator'):]
    a, b = V(eng, st, args[0]), V(eng, st, args[1])
    if op in ('>', '<='):
        a, b = b, a
    n = glt(eng, st, a, b, fn.params[0])
    return ret(st, eng.mkbool(n if op in ('<', '>') else eng.M.NOT(n)))


def glt(eng, st, a, b, ty):
    """Strict order of values: lexicographic on arrays, pairs and tuples."""
    if a[0] == 'gv' or b[0] == 'gv':
        return eng.M.ORs(*[eng.M.ANDs(ga, gb, glt(eng, st, xa, xb, ty)) for ga, xa in eng.alts(a)
                           for gb, xb in eng.alts(b) if eng.M.AND(ga, gb)])
    if a[0] == 'st' and a[1] in ('pair', 'tuple') and b[0] == 'st' and b[1] == a[1]:
        fa, fb = st_fields(a), st_fields(b)
        ks = ['first', 'second'] if a[1] == 'pair' else [str(i) for i in range(len(fa))]
        r = 0
        for k in reversed(ks):
            x, y = derefr(eng, st, fa[k]), derefr(eng, st, fb[k])
            r = eng.M.OR(glt(eng, st, x, y, None), eng.M.AND(eng.M.NOT(glt(eng, st, y, x, None)), r))
        return r
    t = ty.noref if ty is not None else None
    if t is not None and (t.rec in STRS):
        if a == b:
            return 0
        return eng.M.lit(('slt', strval(eng, st, a), strval(eng, st, b)), (1,))
    if t is not None and t.rec in SEQS or a[0] in ('vec',):
        return eng.M.lit(('lexlt', a, b), (1,)) if a != b else 0
    return eng.intcmp('<', a, b, True)


def derefr(eng, st, v):
    """Members that are references denote what they refer to."""
    if v[0] == 'refv':
        return eng.read(st, v[1])
    return v


def msg_eq(eng, st, fr, fn, obj, args, e):
    a = eng.read(st, obj)
    b = V(eng, st, args[0])
    rec = eng.record(fn.rectype)
    n = 1
    for f in rec['f']:
        n = eng.M.AND(n, eng.eq(eng.sel_f(a, f['n']), eng.sel_f(b, f['n'])))
    return ret(st, eng.mkbool(n))


# --------------------------------------------------------------------- path
def topath(eng, st, v):
    k = v[0]
    if k == 'gv':
        return eng.mkgv([(g, topath(eng, st, x)) for g, x in v[1]], 200)
    if k in ('path', 'pjoin', 'pcat', 'papp'):
        return v
    if k in ('gstr', 'nstr'):
        return v[1]
    if k == 'cptr':
        return topath(eng, st, v[1])
    return ('path', v)


def pjoin(eng, st, a, b):
    def f(x, y):
        y = ('nstr', y) if y[0] in ('pjoin', 'pcat', 'papp') else y
        if y[0] == 'path':
            y = y[1]
        if y[0] == 's' and y[1] and not y[1].startswith('/') and '/' in y[1].rstrip('/') and '//' not in y[1]:
            for part in y[1].split('/'):
                x = ('pjoin', x, S(part))
            return x
        return ('pjoin', x, y)
    return eng.gvmap2(a, b, f)


def parg(eng, st, a, fn, i):
    return topath(eng, st, sarg(eng, st, a, fn, i) if fn.params[i].k == 'ptr' else V(eng, st, a))


def p_append(eng, st, fr, fn, obj, args, e):
    x = parg(eng, st, args[0], fn, 0)
    return ret(wr(eng, st, obj, pjoin(eng, st, topath(eng, st, eng.read(st, obj)), x)), ('lref', obj))


def p_concat(eng, st, fr, fn, obj, args, e):
    x = sarg(eng, st, args[0], fn, 0)
    p = topath(eng, st, eng.read(st, obj))
    return ret(wr(eng, st, obj, eng.gvmap2(p, x, lambda a, b: ('pcat', a, b))), ('lref', obj))


def p_assign(eng, st, fr, fn, obj, args, e):
    return ret(wr(eng, st, obj, parg(eng, st, args[0], fn, 0)), ('lref', obj))


def p_gstr(eng, st, fr, fn, obj, args, e):
    p = topath(eng, st, eng.read(st, obj))
    return ret(st, eng.gvmap(p, lambda x: ('gstr', x)))


def p_nstr(eng, st, fr, fn, obj, args, e):
    p = topath(eng, st, eng.read(st, obj))
    return ret(st, eng.gvmap(p, lambda x: ('nstr', x)))


def p_cstr(eng, st, fr, fn, obj, args, e):
    p = topath(eng, st, eng.read(st, obj))
    return ret(st, eng.gvmap(p, lambda x: ('cptr', ('nstr', x))))


def p_app(eng, st, fr, fn, obj, args, e):
    p = topath(eng, st, eng.read(st, obj))

    def f(x):
        nm = x[2][1] if x[0] == 'pjoin' and x[2][0] == 's' else None
        if nm and '/' not in nm and nm not in ('.', '..'):
            i = nm.rfind('.')
            if fn.n == 'filename':
                return ('path', S(nm))
            if fn.n == 'extension':
                return ('path', S(nm[i:] if i > 0 else ''))
            if fn.n == 'stem':
                return ('path', S(nm[:i] if i > 0 else nm))
            if fn.n == 'has_filename':
                return TRUE
        return ('papp', fn.n, x) + tuple(V(eng, st, a) for a in args)
    return ret(st, eng.gvmap(p, f))


def p_empty(eng, st, fr, fn, obj, args, e):
    p = topath(eng, st, eng.read(st, obj))

    def f(x):
        if x[0] == 'path':
            return eng.mkbool(eng.eq(x[1], S('')))
        return eng.mkbool(eng.M.lit(('pempty', x), (1,)))
    return ret(st, eng.gvmap(p, f))


def p_mut(eng, st, fr, fn, obj, args, e):
    p = topath(eng, st, eng.read(st, obj))
    x = parg(eng, st, args[0], fn, 0) if args else ('path', S(''))

    def last(y):
        return y[0] == 'pjoin' and y[2][0] == 's' and y[2][1] not in ('', '.', '..') and '/' not in y[2][1]
    if all(last(y) for _, y in eng.alts(p)) and all(z[0] == 'path' and z[1][0] == 's' and '/' not in z[1][1] for _, z in eng.alts(x)):
        def f(y, z):
            nm, z = y[2][1], z[1][1]
            if fn.n == 'replace_extension':
                i = nm.rfind('.')
                return ('pjoin', y[1], S((nm[:i] if i > 0 else nm) + ('.' if z and z[0] != '.' else '') + z))
            return ('pjoin', y[1], S(z))
        if fn.n in ('replace_extension', 'replace_filename', 'remove_filename'):
            return ret(wr(eng, st, obj, eng.gvmap2(p, x, f)), ('lref', obj))
    v = ('papp', fn.n, p) + tuple(V(eng, st, a) for a in args)
    return ret(wr(eng, st, obj, v), ('lref', obj))


PATHTAB = {
    'operator/=': p_append, 'append': p_append, 'operator+=': p_concat, 'concat': p_concat, 'operator=': p_assign,
    'assign': p_assign, 'generic_string': p_gstr, 'string': p_nstr, 'native': p_nstr, 'c_str': p_cstr,
    'u8string': p_nstr, 'operator basic_string': p_nstr, 'empty': p_empty, 'lexically_normal': p_app,
    'parent_path': p_app, 'filename': p_app, 'stem': p_app, 'extension': p_app, 'is_absolute': p_app,
    'is_relative': p_app, 'has_filename': p_app, 'lexically_relative': p_app, 'lexically_proximate': p_app,
    'replace_filename': p_mut, 'replace_extension': p_mut, 'make_preferred': p_mut, 'remove_filename': p_mut,
}


@model('std::filesystem::operator/')
def p_div(eng, st, fr, fn, obj, args, e):
    return ret(st, pjoin(eng, st, parg(eng, st, args[0], fn, 0), parg(eng, st, args[1], fn, 1)))


FT = ('regular', 'directory', 'other', 'notfound', 'error')


def ftype(eng, p, keys):
    if p[0] == 'gv':
        return eng.M.ORs(*[eng.M.AND(g, ftype(eng, x, keys)) for g, x in p[1]])
    return eng.M.lit(('ftype', p), keys, FT)


def fs_call(eng, st, fr, fn, args, e, keys):
    """Predicates of std::filesystem over a path (throwing and error_code forms)."""
    p = parg(eng, st, args[0], fn, 0)
    eng.event(st, 'fs', fn.q, p) if False else None
    return fs_result(eng, st, fr, fn, args, p, eng.mkbool(ftype(eng, p, keys)))


def fs_result(eng, st, fr, fn, args, p, val, ec_keys=('error', 'notfound')):
    eng.fs_uses = getattr(eng, 'fs_uses', [])
    eng.fs_uses.append((fn.q, p, eng.cur, len(args)))
    err = ftype(eng, p, ('error',))
    if len(args) > 1:
        s = wr(eng, st, args[1][1], ('errc', eng.mkbool(ftype(eng, p, ec_keys))))
        return ret(s, val)
    out = []
    s1, s2 = eng.assume(st, err), eng.assume(st, eng.M.NOT(err))
    if s1 is not None:
        s1 = s1.copy()
        s1.ev = s1.ev + (('throw', fn.q, p, eng.cur),)
        eng.thrown.append((s1, ('exc', 'std::filesystem::filesystem_error')))
    if s2 is not None:
        out.append((s2, val))
    return out


def fs_pred(keys):
    def m(eng, st, fr, fn, obj, args, e):
        if fn.params[0].rec == 'std::filesystem::file_status':
            v = V(eng, st, args[0])

            def f(x):
                if x[0] == 'fstatus':
                    return eng.mkbool(ftype(eng, x[1], keys))
                return eng.mkbool(eng.M.lit(('fsp', fn.n, x), (1,)))
            return ret(st, eng.gvmap(v, f))
        p = parg(eng, st, args[0], fn, 0)
        ec = ('error',) if fn.n == 'exists' else ('error', 'notfound')
        return fs_result(eng, st, fr, fn, args, p, eng.mkbool(ftype(eng, p, keys)), ec)
    return m


REG['std::filesystem::is_regular_file'] = fs_pred(('regular',))
REG['std::filesystem::exists'] = fs_pred(('regular', 'directory', 'other'))
REG['std::filesystem::is_directory'] = fs_pred(('directory',))


@model('std::filesystem::status')
def fs_status(eng, st, fr, fn, obj, args, e):
    p = parg(eng, st, args[0], fn, 0)
    return fs_result(eng, st, fr, fn, args, p, eng.gvmap(p, lambda x: ('fstatus', x)))


@model('std::filesystem::symlink_status', 'std::filesystem::file_size', 'std::filesystem::is_symlink',
       'std::filesystem::is_empty', 'std::filesystem::is_other', 'std::filesystem::canonical',
       'std::filesystem::weakly_canonical', 'std::filesystem::absolute', 'std::filesystem::relative',
       'std::filesystem::read_symlink', 'std::filesystem::hard_link_count', 'std::filesystem::last_write_time')
def fs_other(eng, st, fr, fn, obj, args, e):
    """Other read-only queries: an unknown function of the path, which may fail."""
    p = parg(eng, st, args[0], fn, 0)
    name = fn.n
    r = ('papp', name, p) if fn.ret.rec == PATH else ('fsq', name, p)
    eng.fs_uses = getattr(eng, 'fs_uses', [])
    eng.fs_uses.append((fn.q, p, eng.cur, len(args)))
    fail = eng.M.lit(('fsfail', name, p), (1,))
    if len(args) > 1:
        s = wr(eng, st, args[-1][1], ('errc', eng.mkbool(fail)))
        return ret(s, eng.typed(r, fn.ret))
    out = []
    s1, s2 = eng.assume(st, fail), eng.assume(st, eng.M.NOT(fail))
    if s1 is not None:
        s1 = s1.copy()
        s1.ev = s1.ev + (('throw', fn.q, p, eng.cur),)
        eng.thrown.append((s1, ('exc', 'std::filesystem::filesystem_error')))
    if s2 is not None:
        out.append((s2, eng.typed(r, fn.ret)))
    return out


@model('std::filesystem::file_status::type')
def fs_type(eng, st, fr, fn, obj, args, e):
    v = eng.read(st, obj)
    vals = file_type_values(fr)

    def f(x):
        if x[0] != 'fstatus':
            return ('fld', x, 'type')
        pairs = [(ftype(eng, x[1], (k,)), I(n)) for k, n in vals]
        pairs.append((ftype(eng, x[1], ('other',)), ('fsq', 'othertype', x[1])))
        return eng.mkgv(pairs)
    return ret(st, eng.gvmap(v, f))


def file_type_values(fr):
    # libstdc++: enum class file_type : signed char { none = 0, not_found = -1, regular = 1, directory = 2, ... }
    return [('regular', 1), ('directory', 2), ('notfound', -1), ('error', 0)]


@model('std::filesystem::status_known')
def fs_known(eng, st, fr, fn, obj, args, e):
    v = V(eng, st, args[0])
    return ret(st, eng.gvmap(v, lambda x: eng.mkbool(eng.M.NOT(ftype(eng, x[1], ('error',))))))


@model('std::error_code::operator bool', 'std::error_code::value')
def ec_bool(eng, st, fr, fn, obj, args, e):
    v = eng.read(st, obj)

    def f(x):
        if x[0] == 'errc':
            return x[1]
        return eng.mkbool(eng.M.lit(('ec', x), (1,)))
    return ret(st, eng.gvmap(v, f))


@model('std::error_code::clear')
def ec_clear(eng, st, fr, fn, obj, args, e):
    return void(wr(eng, st, obj, ('errc', FALSE)))


# ------------------------------------------------------------------ streams
def mkstream(p, ok, n=I(0)):
    return st_('ifs', path=p, ok=ok, n=n, open=ok)


def opened(eng, p):
    if p[0] == 'gv':
        return eng.M.ORs(*[eng.M.AND(g, opened(eng, x)) for g, x in p[1]])
    # a file that does not exist cannot be opened for reading
    n = eng.M.lit(('open', p), (1,))
    return n


def if_ctor(eng, st, fr, fn, ty, args, e):
    if not args:
        return ret(st, mkstream(NULL, FALSE))
    p = parg(eng, st, args[0], fn, 0)
    eng.fs_uses = getattr(eng, 'fs_uses', [])
    mode = V(eng, st, args[1]) if len(args) > 1 else None
    eng.fs_uses.append(('open', p, eng.cur, mode))
    return ret(st, mkstream(p, eng.mkbool(opened(eng, p))))


def if_open(eng, st, fr, fn, obj, args, e):
    p = parg(eng, st, args[0], fn, 0)
    eng.fs_uses = getattr(eng, 'fs_uses', [])
    eng.fs_uses.append(('open', p, eng.cur, V(eng, st, args[1]) if len(args) > 1 else None))
    return void(wr(eng, st, obj, mkstream(p, eng.mkbool(opened(eng, p)))))


def strm(eng, st, obj):
    v = eng.read(st, obj)
    if v[0] == 'st' and v[1] in ('ifs', 'iss'):
        return st_fields(v)
    raise Unsupported('stream state at %s' % (eng.cur,))


def if_isopen(eng, st, fr, fn, obj, args, e):
    return ret(st, strm(eng, st, obj)['open'])


def if_ok(eng, st, fr, fn, obj, args, e):
    return ret(st, strm(eng, st, obj)['ok'])


def if_notok(eng, st, fr, fn, obj, args, e):
    return ret(st, eng.mkbool(eng.M.NOT(eng.node(strm(eng, st, obj)['ok']))))


def if_eof(eng, st, fr, fn, obj, args, e):
    f = strm(eng, st, obj)
    return ret(st, eng.mkbool(eng.M.lit(('eof', f['path'], f['n']), (1,))))


def if_good(eng, st, fr, fn, obj, args, e):
    f = strm(eng, st, obj)
    if f['n'] == I(0):
        return ret(st, f['ok'])
    return ret(st, eng.mkbool(eng.M.AND(eng.node(f['ok']), eng.M.NOT(eng.M.lit(('eof', f['path'], f['n']), (1,))))))


def if_close(eng, st, fr, fn, obj, args, e):
    f = dict(strm(eng, st, obj))
    f['open'] = FALSE
    return void(wr(eng, st, obj, st_('ifs', **f)))


INTAB = {
    'is_open': if_isopen, 'operator bool': if_ok, 'operator!': if_notok, 'good': if_good, 'fail': if_notok,
    'bad': None, 'eof': if_eof, 'open': if_open, 'close': if_close,
}
INTAB = {k: v for k, v in INTAB.items() if v}


def extract(eng, st, sloc, dloc, kind):
    """One formatted extraction (kind tok) or getline (kind line)."""
    f = dict(strm(eng, st, sloc))
    v = eng.read(st, sloc)
    p, n = f['path'], f['n']
    M = eng.M
    ok0 = eng.node(f['ok'])
    atom = M.lit(('rdtok' if kind == 'tok' else 'rdline', p, n), (1,))
    ok = M.AND(ok0, atom)
    old = eng.read(st, dloc)
    val = eng.mkgv([(ok, (kind, p, n)), (M.NOT(ok), ('unread', old, p, n))])
    f['ok'] = eng.mkbool(ok)
    f['n'] = eng.arith('+', n, I(1))
    s = st.copy()
    eng.write(s, sloc, st_(v[1], **f))
    eng.write(s, dloc, val)
    return s


@model('std::operator>>', 'std::basic_istream::operator>>')
def m_extract(eng, st, fr, fn, obj, args, e):
    if obj is None and fn.params[1].rec == 'std::basic_string':
        s = extract(eng, st, args[0][1], args[1][1], 'tok')
        return ret(s, ('lref', args[0][1]))
    if obj is None and fn.params[0].rec.endswith('stream'):
        raise Unsupported('extraction at %s' % (eng.cur,))
    if obj is not None and args and V(eng, st, args[0])[0] == 'fn':
        return ret(st, ('lref', obj))
    return None


@model('std::getline')
def m_getline(eng, st, fr, fn, obj, args, e):
    if len(args) == 3:
        raise Unsupported('getline with delimiter at %s' % (eng.cur,))
    s = extract(eng, st, args[0][1], args[1][1], 'line')
    return ret(s, ('lref', args[0][1]))


@model('std::ws', 'std::skipws')
def m_ws(eng, st, fr, fn, obj, args, e):
    return ret(st, ('lref', args[0][1]))


# output streams: a list of chunks and the base flag
def skey(eng, st, loc):
    """What identifies a stream: where it is constructed, or its location."""
    v = eng.peek(st, loc)
    return v if v[0] == 'oss' and len(v) > 1 else loc


def o_insert(eng, st, fr, fn, obj, args, e):
    if obj is not None:
        loc, a, ai = obj, args[0], 0
    else:
        loc, a, ai = args[0][1], args[1], 1
    t = fn.params[ai]
    v = V(eng, st, a)
    if v[0] == 'fn':
        name = eng.callable_fn(v).q
        chunk = ('manip', name)
    elif t.k == 'ptr' and is_c_string(t) or t.rec in STRS:
        chunk = ('str', sarg(eng, st, a, fn, ai))
    elif t.rec.startswith('std::_Set') or t.rec.startswith('std::_Resetios') or t.rec.startswith('std::_Setios'):
        chunk = ('manip', t.rec, v)
    else:
        chunk = ('fmt', t.noref.s, v)
    s = st.copy()
    s.ev = s.ev + (('out', skey(eng, st, loc), chunk, eng.cur),)
    return ret(s, ('lref', loc))


@model('std::operator<<', 'std::basic_ostream::operator<<')
def m_insert(eng, st, fr, fn, obj, args, e):
    return o_insert(eng, st, fr, fn, obj, args, e)


@model('std::basic_ostream::put', 'std::basic_ostream::write')
def m_put(eng, st, fr, fn, obj, args, e):
    s = st.copy()
    s.ev = s.ev + (('out', skey(eng, st, obj), ('fmt', fn.params[0].noref.s, V(eng, st, args[0])), eng.cur),)
    return ret(s, ('lref', obj))


@model('std::hex', 'std::dec', 'std::oct', 'std::endl', 'std::flush', 'std::showbase', 'std::noshowbase',
       'std::uppercase', 'std::nouppercase', 'std::left', 'std::right', 'std::internal', 'std::boolalpha', 'std::noboolalpha',
       'std::showpos', 'std::noshowpos')
def m_manip(eng, st, fr, fn, obj, args, e):
    if not args or args[0][0] != 'L':
        return None
    s = st.copy()
    s.ev = s.ev + (('out', skey(eng, st, args[0][1]), ('manip', fn.q), eng.cur),)
    return ret(s, ('lref', args[0][1]))


@model('std::basic_ostringstream::str', 'std::basic_stringstream::str')
def m_oss_str(eng, st, fr, fn, obj, args, e):
    if args:
        return void(st)
    key = skey(eng, st, obj)
    if key[0] == 'oss':
        # nothing but whole strings since its construction: their concatenation
        parts = None
        for ev in st.ev:
            if ev[0] == 'out' and ev[1] == key:
                if ev[2] == ('new',):
                    parts = []
                elif parts is not None:
                    parts.append(ev[2])
            elif ev[0] == 'loop':
                parts = None
        if parts is not None and all(c[0] == 'str' for c in parts):
            return ret(st, cat(*[c[1] for c in parts]))
    return ret(st, ('ossstr', key))


@model('std::setw', 'std::setfill', 'std::setbase')
def m_setw(eng, st, fr, fn, obj, args, e):
    return ret(st, ('manipv', fn.q) + tuple(V(eng, st, a) for a in args))


@model('std::ios_base::flags', 'std::ios_base::setf', 'std::ios_base::unsetf', 'std::basic_ios::fill',
       'std::ios_base::width', 'std::ios_base::precision')
def m_flags(eng, st, fr, fn, obj, args, e):
    s = st.copy()
    vals = tuple(V(eng, s, a) for a in args)
    key = skey(eng, s, obj)
    n = sum(1 for x in s.ev if x[0] == 'out' and x[1] == key)
    if args:
        s.ev = s.ev + (('out', key, ('flags', fn.n) + vals, eng.cur),)
    if fn.n == 'unsetf':
        return void(s)
    return ret(s, ('ostate', 'flags' if fn.n == 'setf' else fn.n, n))


# --------------------------------------------------------------- containers
def keyproj(eng, fn, k):
    """Maps ordered by Compare_rmw_gid_t identify keys by their bytes."""
    t = fn.rectype
    if t is None:
        return k
    return keyproj_t(eng, t, k)


def keyproj_t(eng, t, k):
    if 'rmw_gid' in (t.s or '') or 'rmw_gid' in t.d.get('n', ''):
        return eng.gvmap(k, lambda x: x if x[0] == 'gidkey' else ('gidkey', eng.sel_f(x, 'data')))
    return k


def gidkey_back(k):
    if k[0] == 'gidkey':
        return ('st', 'rmw_gid_s', (('data', k[1]),))
    return k


def m_find(eng, st, fr, fn, obj, args, e):
    k = keyproj(eng, fn, mapkey(eng, st, fn, args[0], 0))
    m = eng.read(st, obj)
    out = []
    for s1, k1 in eng.split(st, k):
        h = eng.map_has(m, k1)
        out.append((s1, eng.mkgv([(h, ('it', obj, ('key', k1))), (eng.M.NOT(h), ('it', obj, END))])))
    return out


def mapkey(eng, st, fn, a, i):
    t = fn.params[i].noref
    v = V(eng, st, a)
    if t.rec in STRS or is_c_string(t):
        return sarg(eng, st, a, fn, i)
    return v


def m_count(eng, st, fr, fn, obj, args, e):
    k = keyproj(eng, fn, mapkey(eng, st, fn, args[0], 0))
    return ret(st, eng.mkbool(eng.map_has(eng.read(st, obj), k)))


def valty(fn):
    """Mapped type of the map a method belongs to."""
    t = fn.rectype
    a = [x for x in t.targs if hasattr(x, 'k')] if t is not None else []
    return a[1] if len(a) > 1 else None


def m_index(eng, st, fr, fn, obj, args, e):
    k = keyproj(eng, fn, mapkey(eng, st, fn, args[0], 0))
    out = []
    for s, k1 in eng.split(st, k):
        m = eng.read(s, obj)
        h = eng.map_has(m, k1)
        if h != 1:
            d = eng.default_value(valty(fn), zero=True) if valty(fn) is not None else ('default',)
            v = eng.mkgv([(h, eng.map_get(m, k1)), (eng.M.NOT(h), d)])
            s = s.copy()
            if eng.assume(s, h) is None or True:
                eng.write(s, obj, eng.map_set(m, k1, v))
        out.append((s, ('lref', (obj[0], obj[1] + (('k', k1), ('f', 'second'))))))
    return out


def m_at(eng, st, fr, fn, obj, args, e):
    k = keyproj(eng, fn, mapkey(eng, st, fn, args[0], 0))
    out = []
    for s, k1 in eng.split(st, k):
        h = eng.map_has(eng.read(s, obj), k1)
        s1, s2 = eng.assume(s, h), eng.assume(s, eng.M.NOT(h))
        if s2 is not None:
            s2 = s2.copy()
            s2.ev = s2.ev + (('throw', 'at', k1, eng.cur),)
            eng.thrown.append((s2, ('exc', 'std::out_of_range')))
        if s1 is not None:
            out.append((s1, ('lref', (obj[0], obj[1] + (('k', k1), ('f', 'second'))))))
    return out


def build_value(eng, st, fr, ty, vals, what):
    """Mapped value built from constructor arguments: [(state, value)]."""
    if not vals:
        return [(st, eng.default_value(ty, zero=True))]
    rec = eng.record(ty)
    if rec is not None:
        # constructor selected by arity
        cands = [f for f in ty.tu.fns if f.get('ctor') and f.rectype is not None and f.rectype.noref.s == ty.noref.s and
                 len(f.d['p']) == len(vals) and f.body is not None and not f.get('copyctor')]
        if len(cands) >= 1:
            out = []
            s = st.copy()
            n = len(s.mem)
            root = ('t', ('new', n), fr.depth)
            s.mem[root] = eng.default_value(ty)
            for s1, _ in eng.inline(s, fr, cands[0], (root, ()), vals, None):
                v = s1.mem[root]
                s1 = s1.copy()
                del s1.mem[root]
                out.append((s1, v))
            return out
    if len(vals) == 1:
        v = V(eng, st, vals[0])
        if ty.rec in STRS:
            v = strval(eng, st, v)
        if ty.rec in PTRS and v[0] in ('ptr', 'null'):
            v = ('st', 'uptr', (('del', ('default_delete',)), ('p', v)))
        return [(st, v)]
    raise Unsupported('construction of %s at %s' % (ty.s, eng.cur))


def tuple_args(eng, st, v):
    """Arguments packed by forward_as_tuple."""
    out = []
    f = st_fields(v)
    for i in range(len(f)):
        x = f[str(i)]
        out.append(('L', x[1]) if x[0] == 'refv' else ('V', x))
    return out


def m_emplace(eng, st, fr, fn, obj, args, e):
    """map::emplace / try_emplace / insert: no effect when the key is present."""
    name = fn.n
    hint = name.endswith('_hint')
    if hint:
        args = args[1:]
    t = fn.rectype
    targs = [x for x in t.targs if hasattr(x, 'k')]
    kt, vt = targs[0], targs[1]
    if name.startswith('try_emplace'):
        kargs, vargs = [args[0]], list(args[1:])
    elif len(args) == 3:
        a1, a2 = V(eng, st, args[1]), V(eng, st, args[2])
        if not (a1[0] == 'st' and a1[1] == 'tuple'):
            raise Unsupported('emplace at %s' % (eng.cur,))
        kargs, vargs = tuple_args(eng, st, a1), tuple_args(eng, st, a2)
    elif len(args) == 2:
        kargs, vargs = [args[0]], [args[1]]
    elif len(args) == 1:
        p = V(eng, st, args[0])
        kargs, vargs = [('V', eng.sel_f(p, 'first'))], [('V', eng.sel_f(p, 'second'))]
    else:
        raise Unsupported('emplace at %s' % (eng.cur,))
    if len(kargs) != 1:
        raise Unsupported('emplace key at %s' % (eng.cur,))
    k = V(eng, st, kargs[0])
    if kt.rec in STRS:
        k = strval(eng, st, k if k[0] != 'ptr' else k)
    k = keyproj_t(eng, t, k)
    out = []
    for s, k1 in eng.split(st, k):
        m = eng.read(s, obj)
        h = eng.map_has(m, k1)
        s1, s2 = eng.assume(s, h), eng.assume(s, eng.M.NOT(h))
        it = ('it', obj, ('key', k1))
        if s1 is not None:
            if name == 'insert_or_assign':
                for s3, v in build_value(eng, s1, fr, vt, vargs, name):
                    s3 = wr(eng, s3, obj, eng.map_set(eng.read(s3, obj), k1, v))
                    out.append((s3, st_('pair', first=it, second=FALSE)))
            else:
                out.append((s1, st_('pair', first=it, second=FALSE)))
        if s2 is not None:
            for s3, v in build_value(eng, s2, fr, vt, vargs, name):
                s3 = wr(eng, s3, obj, eng.map_set(eng.read(s3, obj), k1, v))
                out.append((s3, st_('pair', first=it, second=TRUE)))
    if hint:
        out = [(s, eng.sel_f(v, 'first')) for s, v in out]
    return eng.merge(out)


def m_erase(eng, st, fr, fn, obj, args, e):
    """Erase by key or by iterator; nothing is written when the key is absent."""
    t0 = fn.params[0]
    byit = t0.noref.rec in ITERS
    v = V(eng, st, args[0])
    if len(args) == 2:
        w = V(eng, st, args[1])
        if v[0] == 'it' and w[0] == 'it' and v[1] == w[1] == obj and v[2] == BEGIN and w[2] == END:
            return ret(wr(eng, st, obj, ('map', EMPTY, ())), ('it', obj, END))
        raise Unsupported('range erase at %s' % (eng.cur,))
    if byit:
        out = []
        for s, it in eng.split(st, v):
            if it[0] != 'it' or it[2] == END:
                eng.nullderef.append((eng.cur, 'erase(end)', s.cond))
                continue
            if it[2][0] == 'key':
                out.append((wr(eng, s, obj, eng.map_set(eng.read(s, obj), it[2][1], ABSENT)), ('it', obj, ('next', it[2]))))
            else:
                m = eng.read(s, obj)
                out.append((wr(eng, s, obj, ('merase', m, it[2])), ('it', obj, ('next', it[2]))))
        return out
    k = keyproj(eng, fn, mapkey(eng, st, fn, args[0], 0))
    out = []
    for s, k1 in eng.split(st, k):
        m = eng.read(s, obj)
        h = eng.map_has(m, k1)
        s1, s2 = eng.assume(s, h), eng.assume(s, eng.M.NOT(h))
        if s1 is not None:
            out.append((wr(eng, s1, obj, eng.map_set(eng.read(s1, obj), k1, ABSENT)), I(1)))
        if s2 is not None:
            out.append((s2, I(0)))
    return out


def m_bound(eng, st, fr, fn, obj, args, e):
    """First element whose key is not before (lower_bound) / is after (upper_bound) the given key."""
    t = fn.rectype
    k = keyproj(eng, fn, mapkey(eng, st, fn, args[0], 0))
    m = eng.read(st, obj)
    bv = with_bv(eng, fr)
    try:
        kv = eng.read(st, (obj[0], obj[1] + (('at', bv),) + (() if t.rec in SETS else (('f', 'first'),))))
        M = eng.M

        def before(x, y):
            if y[0] == 'gidkey':
                return M.lit(('lexlt', eng.sel_f(x, 'data'), y[1]), (1,))
            return M.lit(('slt', x, y), (1,))

        def after(x, y):
            if y[0] == 'gidkey':
                return M.lit(('lexlt', y[1], eng.sel_f(x, 'data')), (1,))
            return M.lit(('slt', y, x), (1,))
        out = []
        for s, k1 in eng.split(st, k):
            if k1[0] != 'gidkey' and [x for x in t.targs if hasattr(x, 'k')][0].rec not in STRS:
                raise Unsupported('%s at %s' % (fn.n, eng.cur))
            P = M.NOT(before(kv, k1)) if fn.n == 'lower_bound' else after(kv, k1)
            out.append((s, eng.bind_quant(P, bv)))
    finally:
        fr.loopdepth -= 1
    res = []
    for s, P in out:
        h = eng.any_q(m, P)
        res.append((s, eng.mkgv([(h, ('it', obj, eng.first(m, P))), (M.NOT(h), ('it', obj, END))])))
    return res


def c_clear(eng, st, fr, fn, obj, args, e):
    return void(wr(eng, st, obj, ('map', EMPTY, ())))


def v_clear(eng, st, fr, fn, obj, args, e):
    return void(wr(eng, st, obj, ('vec', ())))


def array_len(t):
    """Number of elements of a std::array type, or None."""
    if t is not None and t.rec == 'std::array':
        n = [x for x in t.noref.targs if not hasattr(x, 'k')]
        if n and str(n[0]).isdigit():
            return int(n[0])
    return None


def c_size(eng, st, fr, fn, obj, args, e):
    n = array_len(fn.rectype)
    if n is not None:
        return ret(st, I(n))
    return ret(st, eng.size_of(eng.read(st, obj)))


def c_empty(eng, st, fr, fn, obj, args, e):
    return ret(st, eng.mkbool(eng.intcmp('==', eng.size_of(eng.read(st, obj)), I(0), True)))


def c_assign(eng, st, fr, fn, obj, args, e):
    v = V(eng, st, args[0])
    s = st.copy()
    t = fn.rectype
    if v[0] == 'vec' and t is not None and t.rec in MAPS + SETS:
        v = il_to_map(eng, s, t, v)
    eng.move_out(s, fn, args[0])
    eng.write(s, obj, v)
    return ret(s, ('lref', obj))


def c_swap(eng, st, fr, fn, obj, args, e):
    a, b = eng.read(st, obj), V(eng, st, args[0])
    s = st.copy()
    eng.write(s, obj, b)
    eng.write(s, args[0][1], a)
    return void(s)


def m_keycomp(eng, st, fr, fn, obj, args, e):
    t = fn.ret
    if t is None or t.k != 'rec' or t.rec.startswith('std::'):
        raise Unsupported('%s at %s' % (fn.n, eng.cur))
    return ret(st, ('st', t.rec, ()))


MAPTAB = {
    'key_comp': m_keycomp,
    'lower_bound': m_bound, 'upper_bound': m_bound,
    'find': m_find, 'count': m_count, 'contains': m_count, 'operator[]': m_index, 'at': m_at, 'emplace': m_emplace,
    'insert': m_emplace, 'try_emplace': m_emplace, 'insert_or_assign': m_emplace, 'emplace_hint': m_emplace,
    'erase': m_erase, 'clear': c_clear, 'size': c_size, 'empty': c_empty, 'begin': c_begin, 'end': c_end,
    'cbegin': c_begin, 'cend': c_end, 'operator=': c_assign, 'swap': c_swap, 'reserve': nop,
}


def set_insert(eng, st, fr, fn, obj, args, e):
    if len(args) != 1:
        raise Unsupported('set insert at %s' % (eng.cur,))
    k = mapkey(eng, st, fn, args[0], 0) if fn.n == 'insert' else V(eng, st, args[0])
    k = keyproj(eng, fn, k)
    if k[0] == 'cptr':
        k = k[1]
    m = eng.read(st, obj)
    h = eng.map_has(m, k)
    s = wr(eng, st, obj, eng.map_set(m, k, I(1)))
    return ret(s, st_('pair', first=('it', obj, ('key', k)), second=eng.mkbool(eng.M.NOT(h))))


SETTAB = dict(MAPTAB)
SETTAB.update({'insert': set_insert, 'emplace': set_insert})


def vpush(eng, V_, x):
    if V_[0] == 'gv':
        return eng.mkgv([(g, vpush(eng, y, x)) for g, y in V_[1]], 200)
    if V_[0] == 'vec':
        return ('vec', V_[1] + (x,))
    return ('vpush', V_, x)


def elemty(fn):
    t = fn.rectype
    a = [x for x in t.targs if hasattr(x, 'k')] if t is not None else []
    return a[0] if a else None


def v_push(eng, st, fr, fn, obj, args, e):
    ty = elemty(fn)
    if fn.n == 'push_back':
        vals = [(st, V(eng, st, args[0]))]
    else:
        vals = []
        if len(args) == 1 and ty.noref.rec == fn.params[0].noref.rec:
            vals = [(st, V(eng, st, args[0]))]
        elif ty.rec == 'std::pair' and len(args) == 2:
            vals = [(st, st_('pair', first=pairval(eng, st, ty, 0, args[0]), second=pairval(eng, st, ty, 1, args[1])))]
        else:
            vals = build_value(eng, st, fr, ty, args, 'emplace_back')
    out = []
    for s, v in vals:
        s = s.copy()
        if fn.n == 'push_back':
            eng.move_out(s, fn, args[0])
        eng.write(s, obj, vpush(eng, eng.read(s, obj), v))
        out.append((s, ('lref', (obj[0], obj[1] + (('at', ('last',)),)))))
    return out


def pairval(eng, st, ty, i, a):
    t = [x for x in ty.targs if hasattr(x, 'k')][i]
    v = V(eng, st, a)
    if t.rec in STRS:
        return strval(eng, st, v)
    if t.rec == 'std::function':
        return fnval(eng, st, v)
    return v


def v_back(eng, st, fr, fn, obj, args, e):
    v = eng.peek(st, obj)
    if v[0] == 'vec' and v[1]:
        return ret(st, ('lref', (obj[0], obj[1] + (('at', I(len(v[1]) - 1)),))))
    return ret(st, ('lref', (obj[0], obj[1] + (('at', ('last',)),))))


def v_front(eng, st, fr, fn, obj, args, e):
    return ret(st, ('lref', (obj[0], obj[1] + (('at', I(0)),))))


def v_at(eng, st, fr, fn, obj, args, e):
    i = V(eng, st, args[0])
    return ret(st, ('lref', (obj[0], obj[1] + (('at', i),))))


def v_data(eng, st, fr, fn, obj, args, e):
    return ret(st, ('aptr', obj, I(0)))


def v_erase(eng, st, fr, fn, obj, args, e):
    a = V(eng, st, args[0])
    if len(args) == 2:
        b = V(eng, st, args[1])
        out = []
        for s, x in eng.split(st, a):
            for s2, y in eng.split(s, b):
                if x[0] == 'it' and y[0] == 'it' and x[2] in (BEGIN, I(0)) and y[2] == END:
                    out.append((wr(eng, s2, obj, ('vec', ())), ('it', obj, END)))
                elif x == y:
                    out.append((s2, x))
                elif x[0] == 'it' and x[2][0] == 'rmend' and y[2] == END:
                    out.append((wr(eng, s2, obj, ('vfilter', x[2][1], x[2][2])), ('it', obj, END)))
                elif x[0] == 'it' and y[0] == 'it' and x[1] == y[1] and 'rmend' not in (x[2][0], y[2][0]):
                    c = eng.read(s2, obj)
                    i = I(0) if x[2] == BEGIN else eng.size_of(c) if x[2] == END else x[2]
                    if y[2] == END:
                        nv = ('vslice', c, I(0), i)
                    else:
                        j = I(0) if y[2] == BEGIN else y[2]
                        nv = ('vcat', ('vslice', c, I(0), i), ('vslice', c, j, eng.size_of(c)))
                    out.append((wr(eng, s2, obj, nv), ('it', obj, END if y[2] == END else i)))
                else:
                    raise Unsupported('range erase at %s' % (eng.cur,))
        return out
    out = []
    for s, x in eng.split(st, a):
        if x[0] != 'it' or x[2] == END:
            eng.nullderef.append((eng.cur, 'erase(end)', s.cond))
            continue
        pos = I(0) if x[2] == BEGIN else x[2]
        c = eng.read(s, obj)
        for s2, cv in eng.split(s, c):
            if cv[0] == 'vec' and pos[0] == 'i':
                l = list(cv[1])
                del l[pos[1]]
                nv = ('vec', tuple(l))
            else:
                nv = ('verase', cv, pos)
            out.append((wr(eng, s2, obj, nv), ('it', obj, pos)))
    return out


def v_pop(eng, st, fr, fn, obj, args, e):
    c = eng.read(st, obj)

    def f(x):
        if x[0] == 'vec' and x[1]:
            return ('vec', x[1][:-1])
        if x[0] == 'vpush':
            return x[1]
        return ('verase', x, ('last',))
    return void(wr(eng, st, obj, eng.gvmap(c, f)))


def v_insert(eng, st, fr, fn, obj, args, e):
    a = V(eng, st, args[0])
    c = eng.read(st, obj)
    if len(args) == 2 and a[0] == 'it' and fn.params[1].rec != 'std::initializer_list':
        v = V(eng, st, args[1])
        if a[2] == END:
            return ret(wr(eng, st, obj, vpush(eng, c, v)), ('it', obj, ('last',)))
        return ret(wr(eng, st, obj, ('vins', c, a[2], v)), ('it', obj, a[2]))
    if len(args) == 3 and a[0] == 'it' and a[2] == END:
        x, y = V(eng, st, args[1]), V(eng, st, args[2])
        src = range_value(eng, st, x, y)
        if src is not None:
            if c == ('vec', ()):
                return ret(wr(eng, st, obj, src), ('it', obj, I(0)))
            return ret(wr(eng, st, obj, ('vcat', c, src)), ('it', obj, ('pos', I(0))))
    raise Unsupported('vector insert at %s' % (eng.cur,))


def range_value(eng, st, x, y):
    if x[0] == 'it' and y[0] == 'it' and x[1] == y[1] and x[2] in (BEGIN, I(0)) and y[2] == END:
        return eng.read(st, x[1])
    if x[0] == 'aptr' and y[0] == 'aptr' and x[1] == y[1]:
        v = eng.read(st, x[1])
        if x[2] == I(0):
            n = arrlen(eng, v, y[2])
            if n is not None and y[2] == n:
                return v
        return ('vslice', v, x[2], y[2])
    return ('vrange', x, y)


def arrlen(eng, v, hint=None):
    if v[0] == 'vec':
        return I(len(v[1]))
    if v[0] == 'vfill':
        return v[1]
    if v[0] == 'fld' and v[2] == 'data':
        return I(16)
    return None


def v_resize(eng, st, fr, fn, obj, args, e):
    n = V(eng, st, args[0])
    if n == I(0):
        return void(wr(eng, st, obj, ('vec', ())))
    c = eng.read(st, obj)
    z = V(eng, st, args[1]) if len(args) > 1 else eng.default_value(elemty(fn), zero=True)
    if n[0] == 'i' and n[1] <= 64 and c == ('vec', ()):
        return void(wr(eng, st, obj, ('vec', (z,) * n[1])))
    return void(wr(eng, st, obj, ('vresize', c, n, z)))


def v_assign(eng, st, fr, fn, obj, args, e):
    if len(args) == 2:
        r = range_value(eng, st, V(eng, st, args[0]), V(eng, st, args[1]))
        return void(wr(eng, st, obj, r))
    return void(wr(eng, st, obj, V(eng, st, args[0])))


def a_fill(eng, st, fr, fn, obj, args, e):
    v = V(eng, st, args[0])
    n = [x for x in fn.rectype.targs if not hasattr(x, 'k')]
    k = int(n[0]) if n else 16
    return void(wr(eng, st, obj, ('vec', (v,) * k)))


SEQTAB = {
    'push_back': v_push, 'emplace_back': v_push, 'back': v_back, 'front': v_front, 'operator[]': v_at, 'at': v_at,
    'data': v_data, 'size': c_size, 'empty': c_empty, 'clear': v_clear, 'begin': c_begin, 'end': c_end,
    'cbegin': c_begin, 'cend': c_end, 'erase': v_erase, 'pop_back': v_pop, 'operator=': c_assign, 'reserve': nop,
    'shrink_to_fit': nop, 'insert': v_insert, 'swap': c_swap, 'resize': v_resize, 'assign': v_assign, 'fill': a_fill,
}


# ---------------------------------------------------------------- iterators
def i_deref(eng, st, fr, fn, obj, args, e):
    v = eng.read(st, obj)
    out = []
    for s, x in eng.split(st, v):
        for s2, loc in eng.deref(s, x, fr):
            out.append((s2, ('lref', loc)))
    return out


def i_arrow(eng, st, fr, fn, obj, args, e):
    v = eng.read(st, obj)
    out = []
    for s, x in eng.split(st, v):
        for s2, loc in eng.deref(s, x, fr):
            out.append((s2, ('ptr', loc)))
    return out


def i_inc(eng, st, fr, fn, obj, args, e):
    n = 1 if '++' in fn.n else -1
    old = eng.read(st, obj)
    new = eng.gvmap(old, lambda x: eng.it_add(x, I(n)))
    s = wr(eng, st, obj, new)
    if args:
        return ret(s, old)
    return ret(s, ('lref', obj))


def i_assign(eng, st, fr, fn, obj, args, e):
    return ret(wr(eng, st, obj, V(eng, st, args[0])), ('lref', obj))


def i_plus(eng, st, fr, fn, obj, args, e):
    v, n = eng.read(st, obj), V(eng, st, args[0])
    if fn.n == 'operator-':
        n = eng.arith('-', I(0), n)
    return ret(st, eng.gvmap(v, lambda x: eng.it_add(x, n)))


def i_pluseq(eng, st, fr, fn, obj, args, e):
    v, n = eng.read(st, obj), V(eng, st, args[0])
    return ret(wr(eng, st, obj, eng.gvmap(v, lambda x: eng.it_add(x, n))), ('lref', obj))


def it_plus(eng, st, fr, fn, obj, args, e):
    a, b = V(eng, st, args[0]), V(eng, st, args[1])
    if a[0] != 'it':
        a, b = b, a
    return ret(st, eng.gvmap(a, lambda x: eng.it_add(x, b)))


@model('__gnu_cxx::operator-', 'std::operator-')
def it_minus(eng, st, fr, fn, obj, args, e):
    a, b = V(eng, st, args[0]), V(eng, st, args[1])
    return ret(st, it_distance(eng, st, b, a))


def it_distance(eng, st, a, b):
    def f(x, y):
        if x[0] == 'it' and y[0] == 'it' and x[1] == y[1]:
            p = I(0) if x[2] == BEGIN else x[2]
            q = I(0) if y[2] == BEGIN else y[2]
            if q == END:
                q = eng.size_of(eng.peek(st, x[1]))
            if p == I(0):
                return q
            return eng.arith('-', q, p)
        if x[0] == 'aptr' and y[0] == 'aptr' and x[1] == y[1]:
            return eng.arith('-', y[2], x[2])
        return ('distance', x, y)
    return eng.gvmap2(a, b, f)


@model('std::distance')
def m_distance(eng, st, fr, fn, obj, args, e):
    return ret(st, it_distance(eng, st, V(eng, st, args[0]), V(eng, st, args[1])))


@model('std::next', 'std::prev')
def m_next(eng, st, fr, fn, obj, args, e):
    v = V(eng, st, args[0])
    n = V(eng, st, args[1]) if len(args) > 1 else I(1)
    if fn.n == 'prev':
        n = eng.arith('-', I(0), n)
    return ret(st, eng.gvmap(v, lambda x: eng.it_add(x, n) if x[0] == 'it' else eng.bump(x, n[1], None)))


@model('std::advance')
def m_advance(eng, st, fr, fn, obj, args, e):
    v = V(eng, st, args[0])
    n = V(eng, st, args[1])
    return void(wr(eng, st, args[0][1], eng.gvmap(v, lambda x: eng.it_add(x, n))))


ITTAB = {
    'operator*': i_deref, 'operator->': i_arrow, 'operator++': i_inc, 'operator--': i_inc, 'operator=': i_assign,
    'operator+': i_plus, 'operator-': i_plus, 'operator+=': i_pluseq, 'operator==': m_eq, 'operator!=': m_ne,
}


@model('std::begin', 'std::cbegin', 'std::end', 'std::cend')
def m_begin(eng, st, fr, fn, obj, args, e):
    st, loc = L(eng, st, args[0])
    b = fn.n.endswith('begin')
    t = fn.params[0].noref
    if t.k == 'array':
        return ret(st, ('aptr', loc, I(0) if b else I(int(t.d.get('n', 0)))))
    if t.rec == 'std::initializer_list' or t.rec:
        return ret(st, ('it', loc, BEGIN if b else END))
    return None


@model('std::size', 'std::empty')
def m_size(eng, st, fr, fn, obj, args, e):
    t = fn.params[0].noref
    if t.k == 'array':
        return ret(st, I(int(t.d.get('n', 0))))
    n = eng.size_of(V(eng, st, args[0]))
    if fn.n == 'empty':
        return ret(st, eng.mkbool(eng.intcmp('==', n, I(0), True)))
    return ret(st, n)


# --------------------------------------------------------------- algorithms
class Rng:
    """Elements of an iterator range: literal positions or a whole container."""

    def __init__(self, loc, whole, positions=None, val=None):
        self.loc, self.whole, self.positions, self.val = loc, whole, positions, val
        self.guards = {}


def mkrange(eng, st, a, b):
    if a[0] == 'gv' or b[0] == 'gv':
        return None
    if a[0] == 'it' and b[0] == 'it' and a[1] == b[1]:
        val = eng.prune(eng.read(st, a[1]), st.cond)
        if val[0] == 'gv':
            return None
        lo = I(0) if a[2] == BEGIN else a[2]
        keys = literal_keys(eng, val)
        if keys is not None and lo == I(0) and b[2] == END:
            return Rng(a[1], False, [('k', k) for k in keys], val)
        if val[0] == 'vec' and lo[0] == 'i' and (b[2] == END or b[2][0] == 'i'):
            hi = len(val[1]) if b[2] == END else b[2][1]
            return Rng(a[1], False, [('at', I(i)) for i in range(lo[1], hi)], val)
        if lo == I(0) and b[2] == END:
            return Rng(a[1], True, None, val)
        return None
    if b[0] == 'aptr' and a[0] != 'aptr' and (b[1] == (('m', a), ()) or a[0] == 'ptr' and a[1] == b[1]):
        a = ('aptr', b[1], I(0))
    if a[0] == 'aptr' and b[0] == 'aptr' and a[1] == b[1] and a[2] == I(0) and b[2][0] not in ('i', 'gv'):
        val = eng.read(st, a[1]) if a[1][0] in st.mem else None
        return Rng(a[1], True, None, val if val is not None and b[2] == ('size', val) else ('range', b[2]))
    if a[0] == 'aptr' and b[0] == 'aptr' and a[1] == b[1] and a[2][0] == 'i' and b[2][0] == 'i':
        if b[2][1] - a[2][1] <= 300:
            return Rng(a[1], False, [('at', I(i)) for i in range(a[2][1], b[2][1])], None)
    return None


def guarded_keys(eng, val):
    """Keys of a map all of whose entries are known, with the condition under which each is there."""
    if val[0] != 'map' or val[1] != EMPTY or not all(k[0] in CONSTK for k, _ in val[2]) or len(val[2]) > 16:
        return None
    g = {k: eng._present(v) for k, v in val[2]}
    ks = sorted([k for k, _ in val[2] if g[k] != 0], key=lambda k: (k[0], k[1]))
    if eng.reverse_unordered:
        ks.reverse()
    return ks, g


def literal_keys(eng, val):
    if val == EMPTY or val == ('map', EMPTY, ()):
        return []
    if val[0] == 'map' and val[1] == EMPTY and all(k[0] in CONSTK or k[0] == 'gidkey' for k, _ in val[2]) and \
            all(v[0] != 'gv' or ABSENT not in [x for _, x in v[1]] for _, v in val[2]):
        ks = [k for k, v in val[2] if v != ABSENT]
        ks.sort(key=lambda k: (k[0], k[1]))
        if eng.reverse_unordered:
            ks.reverse()
        return ks
    return None


class Undecided(Unsupported):
    """The call has to be evaluated separately for the alternatives of a value."""

    def __init__(self, value):
        Unsupported.__init__(self, 'iterator range over one of several containers')
        self.value = value


class Effects(Unsupported):
    pass


def loops_diff(eng, st, s):
    import loops
    return loops.diff_states(eng, st, [s])


def algo_loop(eng, st, fr, rng, test, init, hit):
    """The algorithm as a loop: stop at the first element for which test holds.  [(state, value)]."""
    import loops
    st = st.copy()
    root = ('t', ('alg', len(st.mem)), fr.depth)
    st.mem[root] = init

    def body(s, loc):
        out = []
        for s1, n in test(s, loc):
            a, b = eng.assume(s1, n), eng.assume(s1, eng.M.NOT(n))
            if a is not None:
                a = a.copy()
                a.mem[root] = hit(loc)
                out.append(('b', a, None))
            if b is not None:
                out.append(('n', b, None))
        return out
    res = []
    for k, s, v in loops.iterate(eng, st, fr, rng, body):
        if k == 't':
            eng.thrown.append((s, v))
            continue
        r = s.mem[root]
        s = s.copy()
        del s.mem[root]
        res.append((s, r))
    return eng.merge(res)


def pred_test(eng, fr, fn, f, g, neg):
    def t(s, loc):
        if f is None:
            n = g(s, loc)
            return [(s, eng.M.NOT(n) if neg else n)]
        out = []
        for s1, v in eng.invoke(s, fr, f, [('L', loc)], PREDEXPR):
            if v[0] == 'lref':
                v = eng.read(s1, v[1])
            n = eng.node(v)
            out.append((s1, eng.M.NOT(n) if neg else n))
        return out
    return t


def pred_or_value(eng, st, fn, args):
    if fn.n.endswith('_if') or fn.n.endswith('_if_not') or fn.n in ('any_of', 'all_of', 'none_of'):
        return V(eng, st, args[2]), None
    return None, value_pred(eng, st, V(eng, st, args[2]), fn.params[2].noref)


def pred_at(eng, st, fr, f, loc, extra=()):
    """Truth of a predicate on the element at loc, as a node; effects are refused."""
    outs = eng.invoke(st, fr, f, [('L', loc)] + list(extra), PREDEXPR)
    n, cov = 0, 0
    for s, v in outs:
        if v[0] == 'lref':
            v = eng.read(s, v[1])
        if s.ev != st.ev or s.locks != st.locks or loops_diff(eng, st, s):
            raise Effects('predicate with effects at %s' % (eng.cur,))
        n = eng.M.OR(n, eng.M.AND(s.cond, eng.node(v)))
        cov = eng.M.OR(cov, s.cond)
    return eng.M.constrain(n, st.cond) if st.cond != 1 else n


PREDEXPR = None


def with_bv(eng, fr):
    d = fr.loopdepth
    fr.loopdepth += 1
    return ('bv', d)


def algo_pred(eng, st, fr, rng, f):
    """For a whole-container range: closed predicate node."""
    bv = with_bv(eng, fr)
    try:
        loc = (rng.loc[0], rng.loc[1] + (('at', bv),))
        P = pred_at(eng, st, fr, f, loc)
    finally:
        fr.loopdepth -= 1
    return eng.bind_quant(P, bv)


def need_range(eng, st, args):
    a, b = V(eng, st, args[0]), V(eng, st, args[1])
    a, b = eng.prune(a, st.cond), eng.prune(b, st.cond)
    r = mkrange(eng, st, a, b)
    if r is None and a[0] == 'it' and b[0] == 'it' and a[1] == b[1]:
        v = eng.prune(eng.read(st, a[1]), st.cond)
        if v[0] == 'gv':
            raise Undecided(v)
    if r is None:
        raise Unsupported('iterator range at %s' % (eng.cur,))
    return r


def value_pred(eng, st, x, ty):
    """Predicate `element == x` as a python function loc -> node."""
    def f(s, loc):
        return geq(eng, s, eng.read(s, loc), x, ty, ty)
    return f


def rng_nodes(eng, st, fr, rng, f=None, g=None):
    """Literal range: [(position, node)]."""
    out = []
    for p in rng.positions:
        loc = (rng.loc[0], rng.loc[1] + (p,))
        out.append((p, pred_at(eng, st, fr, f, loc) if f is not None else g(st, loc)))
    return out


def elemtype_of_iter(t):
    return None


def predicate_of(eng, st, fr, fn, args, rng):
    """Closed node (whole range) or list of nodes (literal), from a predicate or value argument."""
    name = fn.n
    if name.endswith('_if') or name.endswith('_if_not') or name in ('any_of', 'all_of', 'none_of', 'partition'):
        f = V(eng, st, args[2])
        if rng.whole:
            return algo_pred(eng, st, fr, rng, f)
        return rng_nodes(eng, st, fr, rng, f)
    x = V(eng, st, args[2])
    if fn.params[2].k == 'ref' and is_c_string(fn.params[2].pointee):
        x = x
    g = value_pred(eng, st, x, fn.params[2].noref)
    if rng.whole:
        bv = with_bv(eng, fr)
        try:
            P = g(st, (rng.loc[0], rng.loc[1] + (('at', bv),)))
        finally:
            fr.loopdepth -= 1
        return eng.bind_quant(P, bv)
    return rng_nodes(eng, st, fr, rng, None, g)


@model('std::find_if', 'std::find', 'std::find_if_not')
def a_find(eng, st, fr, fn, obj, args, e):
    rng = need_range(eng, st, args)
    M = eng.M
    neg = fn.n == 'find_if_not'
    last = V(eng, st, args[1])
    isit = last[0] == 'it'
    P = None
    if rng.whole:
        try:
            P = predicate_of(eng, st, fr, fn, args, rng)
        except Effects:
            pass
    if P is None:
        def hit(loc):
            p = loc[1][-1]
            pos = ('key', p[1]) if p[0] == 'k' else p[1]
            return ('it', rng.loc, pos) if isit else ('aptr', rng.loc, pos)
        f, g = pred_or_value(eng, st, fn, args)
        return algo_loop(eng, st, fr, rng, pred_test(eng, fr, fn, f, g, neg), last, hit)
    if rng.whole:
        P = M.NOT(P) if neg else P
        h = eng.any_q(rng.val, P)
        hit = ('it', rng.loc, eng.first(rng.val, P))
        return ret(st, eng.mkgv([(h, hit), (M.NOT(h), last)]))


@model('std::any_of', 'std::all_of', 'std::none_of')
def a_any(eng, st, fr, fn, obj, args, e):
    rng = need_range(eng, st, args)
    M = eng.M
    P = None
    if rng.whole:
        try:
            P = predicate_of(eng, st, fr, fn, args, rng)
        except Effects:
            pass
    if P is None:
        f, g = pred_or_value(eng, st, fn, args)
        end = TRUE if fn.n in ('all_of', 'none_of') else FALSE
        return algo_loop(eng, st, fr, rng, pred_test(eng, fr, fn, f, g, fn.n == 'all_of'), end, lambda loc: FALSE if end == TRUE else TRUE)
    if rng.whole:
        if fn.n == 'all_of':
            r = M.NOT(eng.any_q(rng.val, M.NOT(P)))
        else:
            r = eng.any_q(rng.val, P)
            r = M.NOT(r) if fn.n == 'none_of' else r
    return ret(st, eng.mkbool(r))


@model('std::count_if', 'std::count')
def a_count(eng, st, fr, fn, obj, args, e):
    rng = need_range(eng, st, args)
    P = predicate_of(eng, st, fr, fn, args, rng)
    if rng.whole:
        return ret(st, eng.count_q(rng.val, P))
    t = I(0)
    for _, n in P:
        t = eng.arith('+', t, eng.mkbool(n))
    return ret(st, t)


@model('std::remove_if', 'std::remove')
def a_remove(eng, st, fr, fn, obj, args, e):
    rng = need_range(eng, st, args)
    if not rng.whole:
        raise Unsupported('remove_if at %s' % (eng.cur,))
    P = predicate_of(eng, st, fr, fn, args, rng)
    return ret(st, ('it', rng.loc, ('rmend', rng.val, P)))


@model('std::erase_if', 'std::erase')
def a_erase(eng, st, fr, fn, obj, args, e):
    loc = args[0][1]
    val = eng.read(st, loc)
    rng = Rng(loc, True, None, val)
    if fn.n == 'erase_if':
        P = algo_pred(eng, st, fr, rng, V(eng, st, args[1]))
    else:
        bv = with_bv(eng, fr)
        P = eng.bind_quant(value_pred(eng, st, V(eng, st, args[1]), fn.params[1].noref)(st, (loc[0], loc[1] + (('at', bv),))), bv)
        fr.loopdepth -= 1
    return ret(wr(eng, st, loc, ('vfilter', val, P)), ('count', val, P))


@model('std::for_each')
def a_foreach(eng, st, fr, fn, obj, args, e):
    import loops
    f = V(eng, st, args[2])
    rng = need_range(eng, st, args)

    def body(s, loc):
        return [('n', s2, None) for s2, _ in eng.invoke(s, fr, f, [('L', loc)], None)]
    outs = loops.iterate(eng, st, fr, rng, body)
    res = []
    for k, s, v in outs:
        if k == 't':
            eng.thrown.append((s, v))
        else:
            res.append((s, f))
    return res


@model('std::accumulate')
def a_accumulate(eng, st, fr, fn, obj, args, e):
    import loops
    rng = need_range(eng, st, args)
    init = V(eng, st, args[2])
    f = V(eng, st, args[3]) if len(args) > 3 else None
    st = st.copy()
    root = ('t', ('acc', len(st.mem)), fr.depth)
    st.mem[root] = init

    def body(s, loc):
        out = []
        acc = s.mem[root]
        if f is None:
            pairs = [(s, eng.arith('+', acc, eng.read(s, loc), fn.ret))]
        else:
            pairs = eng.invoke(s, fr, f, [('V', acc), ('L', loc)], None)
        for s2, v in pairs:
            if v[0] == 'lref':
                v = eng.read(s2, v[1])
            s2 = s2.copy()
            s2.mem[root] = v
            out.append(('n', s2, None))
        return eng.merge_outs(out)
    res = []
    for k, s, v in loops.iterate(eng, st, fr, rng, body):
        if k == 't':
            eng.thrown.append((s, v))
        else:
            r = s.mem[root]
            s = s.copy()
            del s.mem[root]
            res.append((s, r))
    return res


@model('std::back_inserter')
def m_back_inserter(eng, st, fr, fn, obj, args, e):
    a = args[0]
    if a[0] != 'L':
        raise Unsupported('back_inserter at %s' % (eng.cur,))
    return ret(st, ('binsert', a[1]))


def push_range(eng, st, loc, a, b, res):
    old = eng.read(st, loc)
    if ty_is_string(eng, old):
        x = range_text(eng, st, a, b)
        if x is not None:
            return ret(wr(eng, st, loc, sadd(eng, old, x)), res)
    elif a[0] == 'it' and b[0] == 'it' and a[1] == b[1] and a[2] in (BEGIN, I(0)) and b[2] == END:
        v = eng.read(st, a[1])
        if old == ('vec', ()) and v[0] not in ('map', 'gv', 's', 'cat'):
            return ret(wr(eng, st, loc, v), res)
        if old[0] == 'vec' and v[0] == 'vec':
            return ret(wr(eng, st, loc, ('vec', old[1] + v[1])), res)
    raise Unsupported('copy to the end at %s' % (eng.cur,))


CTYPE = {'tolower': lambda c: ord(c.lower()) if c.isascii() else ord(c), 'toupper': lambda c: ord(c.upper()) if c.isascii() else ord(c),
         'isspace': lambda c: c in ' \t\n\v\f\r', 'isdigit': lambda c: c in '0123456789', 'isxdigit': lambda c: c in '0123456789abcdefABCDEF',
         'isalpha': lambda c: c.isascii() and c.isalpha(), 'isalnum': lambda c: c.isascii() and c.isalnum(),
         'isupper': lambda c: 'A' <= c <= 'Z', 'islower': lambda c: 'a' <= c <= 'z', 'isprint': lambda c: ' ' <= c <= '~',
         'isgraph': lambda c: '!' <= c <= '~', 'ispunct': lambda c: c.isascii() and '!' <= c <= '~' and not c.isalnum(),
         'iscntrl': lambda c: c < ' ' or c == '\x7f'}


@model(*[p + n for n in CTYPE for p in ('', 'std::')])
def m_ctype(eng, st, fr, fn, obj, args, e):
    v = V(eng, st, args[0])
    if len(args) != 1:
        return None
    if v[0] == 'i':
        return ret(st, I(int(CTYPE[fn.n](chr(v[1]))) if 0 <= v[1] < 256 else v[1]))
    return ret(st, ('app', fn.n, v))


def m_transform(eng, st, fr, args):
    vals = [V(eng, st, a) for a in args]
    if len(vals) != 4:
        return None
    val = eng.read(st, vals[0][1]) if vals[0][0] == 'it' else ('?',)
    rng = mkrange(eng, st, vals[0], vals[1])
    if val[0] == 's' and vals[1] == ('it', vals[0][1], END) and vals[0][2] in (BEGIN, I(0)):
        rng = Rng(vals[0][1], False, [('at', I(i)) for i in range(len(val[1]))], val)
    if rng is None or rng.whole or vals[2][0] not in ('it', 'aptr', 'binsert'):
        return None
    base = None if vals[2][0] == 'binsert' else I(0) if vals[2][2] == BEGIN else vals[2][2]
    cur = [st]
    for j, p in enumerate(rng.positions):
        nxt = []
        for s in cur:
            for s2, v in eng.invoke(s, fr, vals[3], [('L', (rng.loc[0], rng.loc[1] + (p,)))], None):
                if v[0] == 'lref':
                    v = eng.read(s2, v[1])
                s2 = s2.copy()
                if base is None:
                    old = eng.read(s2, vals[2][1])
                    if ty_is_string(eng, old) and v[0] == 'i':
                        eng.write(s2, vals[2][1], sadd(eng, old, S(chr(v[1] & 255))))
                    elif old[0] == 'vec':
                        eng.write(s2, vals[2][1], ('vec', old[1] + (v,)))
                    else:
                        return None
                else:
                    eng.write(s2, (vals[2][1][0], vals[2][1][1] + (('at', eng.arith('+', base, I(j))),)), v)
                nxt.append((s2, None))
        cur = [s for s, _ in eng.merge(nxt)]
    return [(s, ('opq', 'transformend', eng.cur)) for s in cur]


@model('std::transform', 'std::copy', 'std::copy_n', 'std::fill', 'std::fill_n', 'std::move_backward')
def a_copy(eng, st, fr, fn, obj, args, e):
    vals = [V(eng, st, a) for a in args]
    if fn.n == 'transform':
        r = m_transform(eng, st, fr, args)
        if r is not None:
            return r
    if fn.n in ('copy', 'copy_n'):
        if fn.n == 'copy_n':
            src, n, dst = vals
        else:
            src, last, dst = vals
            n = it_distance(eng, st, src, last)
            if dst[0] == 'binsert':
                return push_range(eng, st, dst[1], src, last, dst)
        r = copy_into(eng, st, fr, dst, src, n)
        if r is not None:
            return ret(r, ('opq', 'copyend', eng.cur))
    if fn.n == 'fill':
        rng = mkrange(eng, st, vals[0], vals[1])
        if rng is not None and not rng.whole:
            s = st.copy()
            for p in rng.positions:
                eng.write(s, (rng.loc[0], rng.loc[1] + (p,)), vals[2])
            return void(s)
    if fn.n == 'fill_n':
        r = set_bytes(eng, st, vals[0], vals[2], vals[1], ('opq', 'fillend', eng.cur))
        if r is not None:
            return r
    raise Unsupported('%s at %s' % (fn.n, eng.cur))


def base_ptr(v):
    """(location, index) of a pointer/iterator to an array element."""
    if v[0] == 'aptr':
        return v[1], v[2]
    if v[0] == 'it':
        return v[1], I(0) if v[2] == BEGIN else v[2]
    if v[0] == 'ptr':
        return v[1], None
    return None


def copy_into(eng, st, fr, dst, src, n):
    """memcpy-like copy of n bytes/elements; None if not understood."""
    d, s_ = base_ptr(dst), base_ptr(src)
    if d is None or s_ is None:
        return None
    dl, di = d
    sl, si = s_
    # pointer to element 0 of an array is a pointer to the array
    if di is None and dl[1] and dl[1][-1][0] == 'at':
        dl, di = (dl[0], dl[1][:-1]), dl[1][-1][1]
    if si is None and sl[1] and sl[1][-1][0] == 'at':
        sl, si = (sl[0], sl[1][:-1]), sl[1][-1][1]
    v = eng.read(st, sl)
    if dl[1] and dl[1][-1] == ('ch', I(0)):
        dl, di = (dl[0], dl[1][:-1]), I(0)
    old = eng.peek(st, dl)
    if old[0] in ('s', 'sfill') and di in (None, I(0)) and si in (None, I(0), BEGIN):
        room = I(len(old[1])) if old[0] == 's' else old[1]
        src = v if ty_is_string(eng, v) else strof(v)
        if n == (eng.size_of(v) if not ty_is_string(eng, v) else str_size(eng, v)) and (room == n or room[0] == 'i' and n[0] == 'i' and n[1] <= room[1] and src[0] == 's'):
            return wr(eng, st, dl, S(src[1] + old[1][len(src[1]):]) if old[0] == 's' and src[0] == 's' else src)
    whole = n in (I(16), ('size', v))
    if n[0] == 'i' and v[0] == 'vec':
        whole = n[1] == len(v[1])
    if whole and di in (None, I(0)) and si in (None, I(0)):
        # a gid object starts with its data member when it is wrapped
        return wr(eng, st, dl, v)
    old = eng.peek(st, dl)
    if n[0] == 'gv' and di in (None, I(0)) and si in (None, I(0)):
        return wr(eng, st, dl, eng.mkgv([(g, v if x in (I(16), ('size', v)) else ('partial', old, v, x, I(0), I(0))) for g, x in n[1]]))
    return wr(eng, st, dl, ('partial', old, v, n, di or I(0), si or I(0)))


@model('memcpy', 'memmove', 'std::memcpy', 'std::memmove')
def m_memcpy(eng, st, fr, fn, obj, args, e):
    dst, src, n = [V(eng, st, a) for a in args]
    r = copy_into(eng, st, fr, dst, src, n)
    if r is None:
        return None
    return ret(r, dst)


@model('memset', 'std::memset')
def m_memset(eng, st, fr, fn, obj, args, e):
    dst, c, n = [V(eng, st, a) for a in args]
    return set_bytes(eng, st, dst, c, n, dst)


def set_bytes(eng, st, dst, c, n, res):
    d = base_ptr(dst)
    if d is None or n[0] != 'i' or not 0 <= n[1] <= 64 or c[0] != 'i':
        return None
    dl, di = d
    if di is None and dl[1] and dl[1][-1][0] == 'at':
        dl, di = (dl[0], dl[1][:-1]), dl[1][-1][1]
    if di is None or eng.peek(st, dl)[0] in ('s', 'cat'):
        return None
    for i in range(n[1]):
        eng.write(st, (dl[0], dl[1] + (('at', eng.arith('+', di, I(i))),)), I(c[1] & 255))
    return ret(st, res)


@model('memcmp', 'std::memcmp')
def m_memcmp(eng, st, fr, fn, obj, args, e):
    a, b, n = [V(eng, st, x) for x in args]
    return ret(st, memcmp_val(eng, st, a, b, n))


def memcmp_val(eng, st, a, b, n):
    d, s_ = base_ptr(a), base_ptr(b)
    if d is None or s_ is None:
        return ('memcmp', a, b, n)
    (dl, di), (sl, si) = d, s_
    if di is None and dl[1] and dl[1][-1][0] == 'at':
        dl, di = (dl[0], dl[1][:-1]), dl[1][-1][1]
    if si is None and sl[1] and sl[1][-1][0] == 'at':
        sl, si = (sl[0], sl[1][:-1]), sl[1][-1][1]
    x, y = eng.read(st, dl), eng.read(st, sl)
    if n == I(16) and di in (None, I(0)) and si in (None, I(0)):
        q = eng.eq(x, y)
        return eng.mkgv([(q, I(0)), (eng.M.NOT(q), ('lexcmp', x, y))]) if q != 1 else I(0)
    if n == I(0):
        return I(0)
    return ('memcmp', x, y, n, di or I(0), si or I(0))


@model('std::equal')
def m_equal(eng, st, fr, fn, obj, args, e):
    vals = [V(eng, st, a) for a in args]
    a, b, c = vals[:3]
    if len(vals) > 3 and vals[3][0] not in ('it', 'aptr'):
        raise Unsupported('equal with predicate at %s' % (eng.cur,))
    n = it_distance(eng, st, a, b)
    if n[0] == "size" and e.get("a") and e["a"][0]["k"] == "call":
        k = array_len(fr.tu.fns[e["a"][0]["c"]].rectype)
        n = n if k is None else I(k)
    if n[0] == 'size' or eng.read(st, base_ptr(a)[0])[0] in ('s', 'cat', 'tok', 'vec'):
        x, y = eng.read(st, base_ptr(a)[0]), eng.read(st, base_ptr(c)[0])
        whole = a[0] == 'it' and b[0] == 'it' and c[0] == 'it' and a[2] in (BEGIN, I(0)) and b[2] == END and c[2] in (BEGIN, I(0))
        if whole and len(vals) == 4 and vals[3] == ('it', c[1], END):
            return ret(st, eng.mkbool(eng.eq(x, y)))
        if whole and len(vals) == 3 and x[0] == 's':
            return ret(st, eng.mkbool(eng.startswith(y, x[1])))
        raise Unsupported('std::equal at %s' % (eng.cur,))
    v = memcmp_val(eng, st, a, c, n)
    return ret(st, eng.mkbool(eng.eq(v, I(0)) if v[0] != 'gv' else eng.M.ORs(*[g for g, x in v[1] if x == I(0)])))


@model('std::mismatch')
def m_mismatch(eng, st, fr, fn, obj, args, e):
    vals = [V(eng, st, a) for a in args]
    if len(vals) != 3 or any(v[0] not in ('it', 'aptr') for v in vals):
        raise Unsupported('std::mismatch at %s' % (eng.cur,))
    n = it_distance(eng, st, vals[0], vals[1])
    if n[0] != 'i' or n[1] > 64:
        raise Unsupported('std::mismatch over an unknown length at %s' % (eng.cur,))
    (dl, di), (sl, si) = base_ptr(vals[0]), base_ptr(vals[2])
    if di[0] != 'i' or si[0] != 'i':
        raise Unsupported('std::mismatch at %s' % (eng.cur,))
    x, y = eng.read(st, dl), eng.read(st, sl)
    same, fst, snd = 1, [], []
    for i in range(n[1] + 1):
        if i < n[1]:
            q = eng.intcmp('==', eng.elem(x, I(di[1] + i)), eng.elem(y, I(si[1] + i)))
            here = eng.M.AND(same, eng.M.NOT(q))
            same = eng.M.AND(same, q)
        else:
            here = same
        if here:
            fst.append((here, (vals[0][0], dl, I(di[1] + i))))
            snd.append((here, (vals[2][0], sl, I(si[1] + i))))
    return ret(st, st_('pair', first=eng.mkgv(fst), second=eng.mkgv(snd)))


@model('std::lexicographical_compare')
def m_lex(eng, st, fr, fn, obj, args, e):
    a, b, c, d = [V(eng, st, x) for x in args[:4]]
    if len(args) > 4:
        n1, n2 = it_distance(eng, st, a, b), it_distance(eng, st, c, d)
        p, q = base_ptr(a), base_ptr(c)
        if n1[0] != 'i' or n1 != n2 or not 0 <= n1[1] <= 32 or not p or not q or any(x[1] is None or x[1][0] != 'i' for x in (p, q)):
            raise Unsupported('lexicographical_compare with comparator at %s' % (eng.cur,))
        f = V(eng, st, args[4])
        M, less = eng.M, 0
        for i in reversed(range(n1[1])):
            x, y = [('L', (l[0], l[1] + (('at', I(j[1] + i)),))) for l, j in (p, q)]
            r = []
            for u, v in ((x, y), (y, x)):
                outs = eng.invoke(st, fr, f, [u, v], None)
                if len(outs) != 1 or outs[0][0].ev != st.ev:
                    raise Unsupported('lexicographical_compare with comparator at %s' % (eng.cur,))
                st = outs[0][0]
                r.append(eng.node(outs[0][1]))
            less = M.OR(r[0], M.AND(M.NOT(r[1]), less))
        return ret(st, eng.mkbool(less))
    return ret(st, eng.mkbool(lexnode(eng, st, a, b, c, d)))


def lexnode(eng, st, a, b, c, d):
    n1, n2 = it_distance(eng, st, a, b), it_distance(eng, st, c, d)
    x, y = range_value(eng, st, a, b), range_value(eng, st, c, d)
    return eng.M.lit(('lexlt', x, y, n1, n2), (1,))


@model('std::max', 'std::min')
def m_max(eng, st, fr, fn, obj, args, e):
    if len(args) == 1:
        v = V(eng, st, args[0])
        raise Unsupported('min/max of a list at %s' % (eng.cur,))
    a, b = V(eng, st, args[0]), V(eng, st, args[1])
    if len(args) == 3:
        f = V(eng, st, args[2])
        x, y = (args[0], args[1]) if fn.n == 'max' else (args[1], args[0])
        # max returns b iff a < b ; min returns b iff b < a
        out = []
        for s, v in eng.invoke(st, fr, f, [x, y], None):
            n = eng.node(v)
            out.append((s, eng.mkgv([(n, b), (eng.M.NOT(n), a)])))
        return out
    t = fn.params[0].noref
    if t.k == 'rec':
        # operator< of the argument type, if the program defines one
        cands = [f for f in fr.tu.fns if f.n == 'operator<' and len(f.d['p']) == 2 and f.body is not None and
                 f.params[0].noref.s.replace('const ', '') == t.s.replace('const ', '')]
        if not cands:
            raise Unsupported('min/max at %s' % (eng.cur,))
        x, y = (args[0], args[1]) if fn.n == 'max' else (args[1], args[0])
        out = []
        for s, v in eng.call(st, fr, cands[0], None, [('V', V(eng, st, x)), ('V', V(eng, st, y))], e):
            n = eng.node(v)
            out.append((s, eng.mkgv([(n, b), (eng.M.NOT(n), a)])))
        return out
    uns = bool(t.d.get('u'))
    n = eng.intcmp('<', a, b, uns) if fn.n == 'max' else eng.intcmp('<', b, a, uns)
    return ret(st, eng.mkgv([(n, b), (eng.M.NOT(n), a)]))


@model('std::max_element', 'std::min_element', 'std::sort', 'std::unique', 'std::reverse')
def m_nosupport(eng, st, fr, fn, obj, args, e):
    raise Unsupported('%s at %s' % (fn.q, eng.cur))


# ----------------------------------------------------------------- C strings
@model('strncmp', 'std::strncmp')
def m_strncmp(eng, st, fr, fn, obj, args, e):
    a, b = sarg(eng, st, args[0], fn, 0), sarg(eng, st, args[1], fn, 1)
    n = V(eng, st, args[2])
    return ret(st, eng.gvmap2(a, b, lambda x, y: ('sncmp', x, y, n)))


@model('strcmp', 'std::strcmp')
def m_strcmp(eng, st, fr, fn, obj, args, e):
    a, b = sarg(eng, st, args[0], fn, 0), sarg(eng, st, args[1], fn, 1)
    return ret(st, eng.gvmap2(a, b, lambda x, y: scmp3(eng, x, y)))


@model('strlen', 'std::strlen')
def m_strlen(eng, st, fr, fn, obj, args, e):
    return ret(st, str_size(eng, sarg(eng, st, args[0], fn, 0)))


@model('std::char_traits::length')
def m_ctlen(eng, st, fr, fn, obj, args, e):
    return ret(st, str_size(eng, sarg(eng, st, args[0], fn, 0)))


# ------------------------------------------------------- formatted output
@model('__builtin_va_start', 'va_start')
def m_va_start(eng, st, fr, fn, obj, args, e):
    ap = V(eng, st, args[0])
    if ap[0] not in ('aptr', 'ptr'):
        return None
    s = st.copy()
    eng.write(s, ap[1], ('va', tuple(fr.varargs)), quiet=True)
    return void(s)


@model('__builtin_va_end', 'va_end')
def m_va_end(eng, st, fr, fn, obj, args, e):
    return void(st)


@model('__builtin_va_copy', 'va_copy')
def m_va_copy(eng, st, fr, fn, obj, args, e):
    d, x = V(eng, st, args[0]), V(eng, st, args[1])
    if d[0] not in ('aptr', 'ptr') or x[0] not in ('aptr', 'ptr'):
        return None
    s = st.copy()
    eng.write(s, d[1], eng.peek(st, x[1]), quiet=True)
    return void(s)


@model('snprintf', 'std::snprintf', 'rcutils_snprintf', 'vsnprintf', 'std::vsnprintf', 'rcutils_vsnprintf')
def m_snprintf(eng, st, fr, fn, obj, args, e):
    """A formatted write into memory of the caller is an event: target, room, format, arguments, result."""
    dst, n, fmt = [V(eng, st, a) for a in args[:3]]
    rest = [V(eng, st, a) for a in args[3:]]
    if fn.n in ('vsnprintf', 'rcutils_vsnprintf'):
        ap = rest[0] if rest else UNDEF
        va = eng.peek(st, ap[1]) if ap[0] in ('aptr', 'ptr') else UNDEF
        if va[0] != 'va':
            return None
        rest = list(va[1])
    s = st.copy()
    k = len(st.ev)
    r = ('fmtres', k)
    eng.event(s, 'fmt', dst, n, fmt, tuple(rest), r)
    for g, d in eng.alts(dst):
        if d[0] in ('aptr', 'ptr') and (d[0] == 'ptr' or d[1][0][0] == 'm'):
            root = d[1][0]
            path = d[1][1][:-1] if d[1][1] and d[1][1][-1][0] == 'at' else d[1][1]
            if root[0] == 'm' and path == ():
                s.mem[root] = ('bufver', I(k))
        elif d[0] in ('sym', 'add', 'op', 'w'):
            for b in (x for x in d[1:] if isinstance(x, tuple) and x[0] == 'sym') if d[0] != 'sym' else (d,):
                s.mem[('m', b)] = ('bufver', I(k))
    eng.cmp_log.append(('==', r, I(0)))
    return ret(s, eng.typed(r, fn.ret))


# ------------------------------------------------------- utilities, callables
@model('std::move', 'std::forward', 'std::as_const', 'std::addressof', 'std::__addressof', 'std::exchange')
def m_move(eng, st, fr, fn, obj, args, e):
    if fn.n == 'exchange':
        old = V(eng, st, args[0])
        s = wr(eng, st, args[0][1], V(eng, st, args[1]))
        return ret(s, old)
    if len(args) != 1:
        raise Unsupported('std::move algorithm at %s' % (eng.cur,))
    if args[0][0] == 'L':
        if 'address' in fn.n:
            return ret(st, ('ptr', args[0][1]))
        return ret(st, ('lref', args[0][1]))
    return ret(st, args[0][1])


@model('std::swap')
def m_swap(eng, st, fr, fn, obj, args, e):
    a, b = V(eng, st, args[0]), V(eng, st, args[1])
    s = st.copy()
    eng.write(s, args[0][1], b)
    eng.write(s, args[1][1], a)
    return void(s)


@model('std::forward_as_tuple', 'std::tie')
def m_fwd(eng, st, fr, fn, obj, args, e):
    f = {}
    for i, a in enumerate(args):
        f[str(i)] = ('refv', a[1]) if a[0] == 'L' else a[1]
    return ret(st, ('st', 'tuple', tuple(sorted(f.items()))))


@model('std::make_tuple')
def m_mktuple(eng, st, fr, fn, obj, args, e):
    f = {str(i): decay_val(eng, st, a, fn.params[i]) for i, a in enumerate(args)}
    return ret(st, ('st', 'tuple', tuple(sorted(f.items()))))


def decay_val(eng, st, a, t):
    v = V(eng, st, a)
    if t is not None and t.noref.k == 'array' and v[0] == 's':
        return ('cptr', v)
    return v


@model('std::make_pair')
def m_mkpair(eng, st, fr, fn, obj, args, e):
    return ret(st, st_('pair', first=decay_val(eng, st, args[0], fn.params[0]),
                       second=decay_val(eng, st, args[1], fn.params[1])))


@model('std::get')
def m_get(eng, st, fr, fn, obj, args, e):
    st, loc = L(eng, st, args[0])
    i = get_index(fn)
    t = fn.params[0].noref
    if t.rec == 'std::pair':
        l = (loc[0], loc[1] + (('f', ('first', 'second')[i]),))
    elif t.rec == 'std::array':
        l = (loc[0], loc[1] + (('at', I(i)),))
    else:
        l = (loc[0], loc[1] + (('f', str(i)),))
        v = eng.peek(st, l)
        if v[0] == 'refv':
            l = v[1]
    return ret(st, ('lref', l))


def get_index(fn):
    import re
    m = re.match(r'.*get<(\d+)', fn.raw_q)
    if m:
        return int(m.group(1))
    m = re.search(r'3getILm(\d+)E', fn.m)
    if m:
        return int(m.group(1))
    raise Unsupported('std::get by type')


@model('std::ref', 'std::cref')
def m_ref(eng, st, fr, fn, obj, args, e):
    return ret(st, ('refw', args[0][1]))


@model('std::reference_wrapper::get', 'std::reference_wrapper::operator type&', 'std::reference_wrapper::operator T &')
def m_refget(eng, st, fr, fn, obj, args, e):
    v = eng.read(st, obj)
    return ret(st, ('lref', v[1]))


@model('std::bind')
def m_bind(eng, st, fr, fn, obj, args, e):
    f = fnval(eng, st, V(eng, st, args[0]))
    bargs = []
    for a in args[1:]:
        v = V(eng, st, a)
        if v[0] == 'glob' and '_' in v[1]:
            v = ('ph', int(v[1].split('_')[-1]))
        elif v[0] == 'fld' or v[0] == 'deref':
            pass
        bargs.append(v)
    return ret(st, ('bind', f, tuple(bargs)))


def fnval(eng, st, v):
    if v[0] == 'ptr' and v[1][0][0] == 'strlit':
        return v
    return v


@model('std::invoke')
def m_invoke(eng, st, fr, fn, obj, args, e):
    return eng.invoke(st, fr, V(eng, st, args[0]), list(args[1:]), e)


def f_call(eng, st, fr, fn, obj, args, e):
    v = eng.read(st, obj)
    out = []
    for s, x in eng.split(st, v):
        out.extend(eng.invoke(s, fr, x, args, e))
    return out


def f_bool(eng, st, fr, fn, obj, args, e):
    return ret(st, eng.mkbool(callable_node(eng, eng.read(st, obj))))


def f_assign(eng, st, fr, fn, obj, args, e):
    v = V(eng, st, args[0])
    s = st.copy()
    if fn.params[0].k == 'rref':
        eng.move_out(s, fn, args[0])
    eng.write(s, obj, v)
    return ret(s, ('lref', obj))


FNTAB = {'operator()': f_call, 'operator bool': f_bool, 'operator=': f_assign, 'swap': c_swap}


# --------------------------------------------------------------- pair/tuple
def pt_assign(eng, st, fr, fn, obj, args, e):
    v = V(eng, st, args[0])
    s = st.copy()
    cur = eng.peek(st, obj)
    # assignment through std::tie
    if cur[0] == 'st' and cur[1] == 'tuple' and any(x[0] == 'refv' for x in st_fields(cur).values()):
        for i, x in st_fields(cur).items():
            src = eng.sel_f(v, i) if fn.params[0].rec == 'std::tuple' else eng.sel_f(v, ('first', 'second')[int(i)])
            eng.write(s, x[1], src)
        return ret(s, ('lref', obj))
    eng.write(s, obj, v)
    return ret(s, ('lref', obj))


PAIRTAB = {'operator=': pt_assign, 'swap': c_swap}


# ------------------------------------------------------------------ optional
def o_has(eng, st, fr, fn, obj, args, e):
    v = eng.read(st, obj)

    def f(x):
        if x == ('none',):
            return FALSE
        if x[0] == 'some':
            return TRUE
        return eng.mkbool(eng.M.lit(('optset', x), (1,)))
    return ret(st, eng.gvmap(v, f))


def o_value(eng, st, fr, fn, obj, args, e):
    v = eng.read(st, obj)
    out = []
    for s, x in eng.split(st, v):
        if x == ('none',):
            if fn.n == 'value_or':
                out.append((s, V(eng, s, args[0])))
            else:
                eng.nullderef.append((eng.cur, 'empty optional', s.cond))
            continue
        val = x[1] if x[0] == 'some' else ('optval', x)
        if fn.n == 'value_or':
            out.append((s, val))
            continue
        s = s.copy()
        root = ('t', ('opt', len(s.mem)), fr.depth)
        s.mem[root] = val
        out.append((s, ('ptr', (root, ())) if fn.n == 'operator->' else ('lref', (root, ()))))
    return out


def o_assign(eng, st, fr, fn, obj, args, e):
    v = V(eng, st, args[0])
    if fn.params[0].rec == 'std::nullopt_t':
        v = ('none',)
    elif fn.params[0].rec != 'std::optional':
        v = ('some', v)
    return ret(wr(eng, st, obj, v), ('lref', obj))


def o_reset(eng, st, fr, fn, obj, args, e):
    return void(wr(eng, st, obj, ('none',)))


def o_emplace(eng, st, fr, fn, obj, args, e):
    v = V(eng, st, args[0])
    return ret(wr(eng, st, obj, ('some', v)), ('lref', obj))


OPTTAB = {'has_value': o_has, 'operator bool': o_has, 'value': o_value, 'operator*': o_value, 'operator->': o_value,
          'value_or': o_value, 'operator=': o_assign, 'reset': o_reset, 'emplace': o_emplace}


# ---------------------------------------------------------------------- locks
def lock_ctor(eng, st, fr, fn, ty, args, e):
    ms = []
    held = TRUE
    for i, a in enumerate(args):
        t = fn.params[i].noref
        if t.rec == 'std::defer_lock_t' or t.rec == 'std::try_to_lock_t':
            held = FALSE
            if t.rec == 'std::try_to_lock_t':
                raise Unsupported('try_to_lock at %s' % (eng.cur,))
        elif t.rec == 'std::adopt_lock_t':
            held = None
        elif a[0] == 'L':
            ms.append(a[1])
        elif a[1][0] == 'ptr':
            ms.append(a[1][1])
    s = st
    if held == TRUE:
        for m in ms:
            s = eng.lock(s, m)
    v = ('st', 'lock', (('held', TRUE if held is None else held), ('m', ('mv',) + tuple(ms))))
    return ret(s, v)


def l_set(eng, st, obj, held):
    v = eng.read(st, obj)
    f = st_fields(v)
    return wr(eng, st, obj, ('st', 'lock', (('held', held), ('m', f['m']))))


def l_lock(eng, st, fr, fn, obj, args, e):
    f = st_fields(eng.read(st, obj))
    s = st
    for m in f['m'][1:]:
        s = eng.lock(s, m)
    return void(l_set(eng, s, obj, TRUE))


def l_unlock(eng, st, fr, fn, obj, args, e):
    f = st_fields(eng.read(st, obj))
    s = st
    for m in f['m'][1:]:
        s = eng.unlock(s, m)
    return void(l_set(eng, s, obj, FALSE))


def l_owns(eng, st, fr, fn, obj, args, e):
    return ret(st, st_fields(eng.read(st, obj))['held'])


LOCKTAB = {'lock': l_lock, 'unlock': l_unlock, 'owns_lock': l_owns, 'operator bool': l_owns}


@model('std::mutex::lock', 'std::recursive_mutex::lock', 'std::shared_mutex::lock')
def mx_lock(eng, st, fr, fn, obj, args, e):
    return void(eng.lock(st, obj, 'manual'))


@model('std::mutex::unlock', 'std::recursive_mutex::unlock', 'std::shared_mutex::unlock')
def mx_unlock(eng, st, fr, fn, obj, args, e):
    return void(eng.unlock(st, obj))


# ---------------------------------------------------------------- unique_ptr
def up_ctor(eng, st, fr, fn, ty, args, e):
    if not args:
        return ret(st, ('st', 'uptr', (('del', ('default_delete',)), ('p', NULL))))
    p = V(eng, st, args[0])
    if fn.params[0].noref.rec == 'std::unique_ptr':
        if args[0][0] == 'L':
            s = wr(eng, st, (args[0][1][0], args[0][1][1] + (('f', 'p'),)), NULL)
            return ret(s, p)
        return ret(st, p)
    d = V(eng, st, args[1]) if len(args) > 1 else ('default_delete',)
    return ret(st, ('st', 'uptr', (('del', d), ('p', p))))


def up_get(eng, st, fr, fn, obj, args, e):
    return ret(st, eng.sel_f(eng.read(st, obj), 'p'))


def up_release(eng, st, fr, fn, obj, args, e):
    p = eng.sel_f(eng.read(st, obj), 'p')
    return ret(wr(eng, st, (obj[0], obj[1] + (('f', 'p'),)), NULL), p)


def up_reset(eng, st, fr, fn, obj, args, e):
    v = eng.read(st, obj)
    new = V(eng, st, args[0]) if args else NULL
    out = []
    for s in [s for s1, x in eng.split(st, v) for s in eng.destroy_std(x, obj[0], s1, fr)]:
        out.append((wr(eng, s, (obj[0], obj[1] + (('f', 'p'),)), new), UNDEF))
    return out


def up_bool(eng, st, fr, fn, obj, args, e):
    return ret(st, eng.mkbool(eng.node(eng.sel_f(eng.read(st, obj), 'p'))))


def up_deref(eng, st, fr, fn, obj, args, e):
    p = eng.sel_f(eng.read(st, obj), 'p')
    if fn.n == 'operator->':
        return ret(st, p)
    return [(s, ('lref', loc)) for s, loc in eng.deref(st, p, fr)]


def up_getdel(eng, st, fr, fn, obj, args, e):
    return ret(st, ('lref', (obj[0], obj[1] + (('f', 'del'),))))


@model('std::make_unique', 'std::make_shared')
def m_make(eng, st, fr, fn, obj, args, e):
    ts = [x for x in fn.ret.targs if hasattr(x, 'k')]
    if not ts or ts[0].k == 'array':
        return None
    out = []
    cur = eng.cur
    for s, v in build_value(eng, st, fr, ts[0], list(args), fn.n):
        eng.cur = cur
        s, p = eng.allocate(s, ts[0], v)
        out.append((s, ('st', 'uptr', (('del', ('default_delete',)), ('p', p)))))
    return out


UPTAB = {'get': up_get, 'release': up_release, 'reset': up_reset, 'operator bool': up_bool, 'operator*': up_deref,
         'operator->': up_deref, 'get_deleter': up_getdel}


def d_pred(keys):
    def m(eng, st, fr, fn, obj, args, e):
        p = dirent(eng, st, obj)
        return fs_result(eng, st, fr, fn, [None] + list(args), p, eng.mkbool(ftype(eng, p, keys)))
    return m


def dirent(eng, st, obj):
    return eng.gvmap(eng.read(st, obj), lambda x: x[1] if x[0] == 'dirent' else ('papp', 'dirent', x))


def d_status(eng, st, fr, fn, obj, args, e):
    p = dirent(eng, st, obj)
    return fs_result(eng, st, fr, fn, [None] + list(args), p, eng.gvmap(p, lambda x: ('fstatus', x)))


def d_path(eng, st, fr, fn, obj, args, e):
    return ret(st, dirent(eng, st, obj))


def d_assign(eng, st, fr, fn, obj, args, e):
    p = parg(eng, st, args[0], fn, 0)
    out = []
    for s, _ in fs_result(eng, st, fr, fn, args, p, UNDEF):
        out.append((wr(eng, s, obj, ('dirent', p)), UNDEF))
    return out


DIRTAB = {'is_regular_file': d_pred(('regular',)), 'exists': d_pred(('regular', 'directory', 'other')),
          'is_directory': d_pred(('directory',)), 'status': d_status, 'path': d_path, 'operator const path &': d_path,
          'assign': d_assign}


CLASSES = [
    (('std::filesystem::directory_entry',), DIRTAB),
    (STRS, STRTAB), ((PATH,), PATHTAB), (STREAMS_IN, INTAB), (MAPS, MAPTAB), (SETS, SETTAB), (SEQS, SEQTAB),
    (ITERS, ITTAB), (('std::function',), FNTAB), (('std::pair', 'std::tuple'), PAIRTAB), (('std::optional',), OPTTAB),
    (LOCKS, LOCKTAB), (PTRS, UPTAB), (('std::_Bind',), {'operator()': f_call}),
]


# ------------------------------------------------------------- construction
def default_std(eng, ty):
    r = ty.rec
    if r in STRS:
        return S('')
    if r in MAPS or r in SETS:
        return ('map', EMPTY, ())
    if r in ('std::vector', 'std::deque', 'std::list', 'std::initializer_list'):
        return ('vec', ())
    if r == 'std::array':
        a = ty.targs
        n = [x for x in a if not hasattr(x, 'k')]
        t = [x for x in a if hasattr(x, 'k')]
        k = int(n[0]) if n else 0
        z = eng.zero_value(t[0]) if t else UNDEF
        return ('vec', (z,) * k) if k <= 64 else ('vfill', I(k), z)
    if r == 'std::function':
        return NULL
    if r == PATH:
        return ('path', S(''))
    if r == 'std::optional':
        return ('none',)
    if r == 'std::error_code':
        return ('errc', FALSE)
    if r in PTRS:
        return ('st', 'uptr', (('del', ('default_delete',)), ('p', NULL)))
    if r in ('std::basic_ifstream',):
        return mkstream(NULL, FALSE)
    if r in ('std::basic_ostringstream', 'std::basic_stringstream'):
        return ('oss',)
    if r == 'std::mutex':
        return ('mutex',)
    if r in ('std::pair', 'std::tuple'):
        ts = [x for x in ty.targs if hasattr(x, 'k')]
        names = ('first', 'second') if r == 'std::pair' else [str(i) for i in range(len(ts))]
        return ('st', r[5:], tuple(sorted((n, eng.default_value(t, zero=True)) for n, t in zip(names, ts))))
    return None


def il_to_map(eng, s, ty, v):
    m = ('map', EMPTY, ())
    ts = [x for x in ty.targs if hasattr(x, 'k')]
    isset = ty.rec in SETS
    for el in v[1]:
        if isset:
            k, x = el, I(1)
        else:
            k, x = eng.sel_f(el, 'first'), eng.sel_f(el, 'second')
        k = keyproj_t(eng, ty, k)
        # the first of two equal keys is kept
        if eng.map_has(m, k) == 0:
            m = eng.map_set(m, k, x)
    return m


def convert_to(eng, st, t, v):
    """Implicit conversion of a member in pair/tuple construction."""
    if t.rec in STRS:
        return eng.gvmap(v, lambda x: strval(eng, st, x))
    if t.rec == PATH:
        return topath(eng, st, v)
    if t.rec == 'std::function':
        return fnval(eng, st, v)
    return v


def construct_std(eng, s, fr, fn, ty, args, e):
    r = ty.rec
    if r in STRS:
        return string_ctor(eng, s, fr, fn, ty, args, e)
    if r == 'std::filesystem::directory_entry' and args:
        p = parg(eng, s, args[0], fn, 0)
        return fs_result(eng, s, fr, fn, args, p, ('dirent', p))
    if r == PATH:
        if not args:
            return ret(s, ('path', S('')))
        if len(args) >= 2 and fn.params[1].rec in ITERS:
            raise Unsupported('path from iterators at %s' % (eng.cur,))
        return ret(s, parg(eng, s, args[0], fn, 0))
    if r in ('std::pair', 'std::tuple'):
        ts = [x for x in ty.targs if hasattr(x, 'k')]
        names = ('first', 'second') if r == 'std::pair' else [str(i) for i in range(len(ts))]
        if not args:
            return ret(s, default_std(eng, ty))
        if len(args) == 3 and r == 'std::pair':
            a1, a2 = V(eng, s, args[1]), V(eng, s, args[2])
            out = []
            for s1, x in build_value(eng, s, fr, ts[0], tuple_args(eng, s, a1), 'pair'):
                for s2, y in build_value(eng, s1, fr, ts[1], tuple_args(eng, s1, a2), 'pair'):
                    out.append((s2, st_('pair', first=x, second=y)))
            return out
        if len(args) == 1 and len(ts) > 1 or (len(args) == 1 and fn.params[0].noref.rec in ('std::pair', 'std::tuple')):
            src = V(eng, s, args[0])
            sn = ('first', 'second') if fn.params[0].noref.rec == 'std::pair' else [str(i) for i in range(len(ts))]
            vals = [eng.sel_f(src, n) for n in sn]
            vals = [derefr(eng, s, x) for x in vals]
        else:
            vals = []
            for i, a in enumerate(args):
                if ts[i].k in ('ref', 'rref'):
                    vals.append(('refv', a[1]) if a[0] == 'L' else a[1])
                else:
                    vals.append(decay_val(eng, s, a, fn.params[i] if i < len(fn.params) else None))
        f = {}
        for n, t, v in zip(names, ts, vals):
            f[n] = v if v[0] == 'refv' else convert_to(eng, s, t, v)
        return ret(s, ('st', r[5:], tuple(sorted(f.items()))))
    if r in MAPS or r in SETS:
        args = [a for i, a in enumerate(args) if not (i < len(fn.params) and skip_param(fn.params[i]))]
        if not args:
            return ret(s, ('map', EMPTY, ()))
        v = V(eng, s, args[0])
        if v[0] == 'vec':
            return ret(s, il_to_map(eng, s, ty, v))
        if len(args) == 2:
            x, y = v, V(eng, s, args[1])
            src = range_value(eng, s, x, y)
            if src[0] == 'vec':
                return ret(s, il_to_map(eng, s, ty, src))
            if src[0] == 'map':
                return ret(s, src)
            return ret(s, ('mapof', src))
        if v[0] == 'map':
            return ret(s, v)
        return ret(s, ('mapof', v))
    if r in ('std::vector', 'std::deque', 'std::list'):
        args = [a for i, a in enumerate(args) if not (i < len(fn.params) and skip_param(fn.params[i]))]
        if not args:
            return ret(s, ('vec', ()))
        if fn.params[0].rec == 'std::initializer_list' or (len(args) == 1 and V(eng, s, args[0])[0] == 'vec' and
                                                           fn.params[0].noref.k == 'rec'):
            return ret(s, V(eng, s, args[0]))
        if len(args) == 2 and (V(eng, s, args[0])[0] in ('it', 'aptr', 'ptr') or fn.params[0].k == 'ptr' or
                               fn.params[0].rec in ITERS):
            x, y = V(eng, s, args[0]), V(eng, s, args[1])
            return ret(s, range_value(eng, s, x, y))
        n = V(eng, s, args[0])
        ts = [x for x in ty.targs if hasattr(x, 'k')]
        z = V(eng, s, args[1]) if len(args) > 1 else eng.default_value(ts[0], zero=True)
        if n[0] == 'i' and n[1] <= 64:
            return ret(s, ('vec', (z,) * n[1]))
        return ret(s, ('vfill', n, z))
    if r == 'std::initializer_list':
        return ret(s, V(eng, s, args[0]) if args else ('vec', ()))
    if r == 'std::function':
        if not args:
            return ret(s, NULL)
        v = V(eng, s, args[0])
        if fn.params[0].k == 'nullptr' or v == NULL:
            return ret(s, NULL)
        if args[0][0] == 'L':
            s = s.copy()
        return ret(s, fnval(eng, s, v))
    if r in ('std::basic_ifstream', 'std::basic_fstream'):
        return if_ctor(eng, s, fr, fn, ty, args, e)
    if r in ('std::basic_ostringstream', 'std::basic_stringstream'):
        if len(fn.params) and fn.params[0].noref.rec in ('std::basic_ostringstream', 'std::basic_stringstream'):
            raise Unsupported('copied stream at %s' % (eng.cur,))
        s = s.copy()
        key = ('oss', eng.cur)
        s.ev = s.ev + (('out', key, ('new',), eng.cur),)
        if args and fn.params[0].noref.rec in STRS:
            raise Unsupported('stream with content at %s' % (eng.cur,))
        return ret(s, key)
    if r in ('std::basic_istringstream',):
        x = strval(eng, s, V(eng, s, args[0])) if args else S('')
        return ret(s, st_('iss', path=('strm', x), ok=TRUE, n=I(0), open=TRUE))
    if r in LOCKS:
        return lock_ctor(eng, s, fr, fn, ty, args, e)
    if r == 'std::unique_ptr':
        return up_ctor(eng, s, fr, fn, ty, args, e)
    if r in ITERS:
        return ret(s, V(eng, s, args[0]) if args else UNDEF)
    if r == 'std::optional':
        if not args or fn.params[0].rec == 'std::nullopt_t':
            return ret(s, ('none',))
        v = V(eng, s, args[0])
        if fn.params[0].noref.rec == 'std::optional':
            return ret(s, v)
        t = [x for x in ty.targs if hasattr(x, 'k')]
        return ret(s, ('some', convert_to(eng, s, t[0], v) if t else v))
    if r == 'std::error_code' and not args:
        return ret(s, ('errc', FALSE))
    if r == 'std::istreambuf_iterator':
        if args and args[0][0] == 'L':
            f = st_fields(eng.read(s, args[0][1]))
            return ret(s, ('isb', f['path']))
        return ret(s, ('isb', NULL))
    if r in ('std::allocator', 'std::hash', 'std::equal_to', 'std::less', 'std::piecewise_construct_t', 'std::mutex',
             'std::nullopt_t'):
        return ret(s, ('unit', r))
    if r == 'std::array' and not args:
        return ret(s, eng.default_value(ty))
    if r == 'std::reference_wrapper':
        v = args[0]
        return ret(s, ('refw', v[1]))
    return None


def skip_param(t):
    return t.rec in ('std::allocator', 'std::hash', 'std::equal_to', 'std::less') or \
        t.noref.rec in ('std::allocator', 'std::hash', 'std::equal_to', 'std::less')


@model('rmw_convert_rcutils_ret_to_rmw_ret')
def m_convert_ret(eng, st, fr, fn, obj, args, e):
    v = V(eng, st, args[0])
    M = eng.M
    out, rest = [], 1
    for a, b in ((0, 0), (10, 10), (11, 11)):
        g = M.AND(rest, eng.intcmp('==', v, I(a), True))
        out.append((g, I(b)))
        rest = M.AND(rest, M.NOT(g))
    return ret(st, eng.mkgv([(g, x) for g, x in out + [(rest, I(1))] if g != 0]))
