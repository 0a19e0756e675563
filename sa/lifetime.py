"""Lifetime analysis: which pointers, references, iterators and views refer to storage that is already gone.

A dataflow analysis over the type-checked syntax tree, path by path and with project helpers followed.  Every borrowing value
carries its targets: places such as (variable, field, element).  The end of a temporary, of a scope, or a change of a container
that invalidates its elements turns the targets concerned into a mark; using a marked value is a violation.
Only the standard containers' documented invalidation rules are applied; a value of unknown origin has no targets.
"""
import json
import re

GONE = 'GONE'
BORROWERS = ('std::_Rb_tree_iterator', 'std::_Rb_tree_const_iterator', '__gnu_cxx::__normal_iterator', 'std::_Node_iterator',
             'std::__detail::_Node_iterator', 'std::__detail::_Node_const_iterator', 'std::_List_iterator', 'std::_List_const_iterator',
             'std::_Deque_iterator', 'std::reverse_iterator', 'std::move_iterator', 'std::__detail::_Node_iterator_base',
             'std::basic_string_view', 'std::span', 'std::reference_wrapper', 'std::initializer_list')
WRAPPERS = ('std::pair', 'std::tuple', 'std::optional')
VECS = ('std::vector', 'std::basic_string', 'std::deque')
NODES = ('std::map', 'std::set', 'std::multimap', 'std::multiset', 'std::unordered_map', 'std::unordered_set', 'std::unordered_multimap',
         'std::unordered_multiset', 'std::list', 'std::forward_list')
ACCESS = {'begin', 'cbegin', 'rbegin', 'crbegin', 'find', 'lower_bound', 'upper_bound', 'data', 'c_str', 'front', 'back', 'at', 'operator[]',
          'emplace_back', 'end', 'cend', 'rend', 'crend', 'insert', 'emplace', 'emplace_hint', 'try_emplace', 'insert_or_assign', 'erase',
          'equal_range', 'native', 'emplace_front', 'operator basic_string_view', 'native_handle'}
ENDS = {'end', 'cend', 'rend', 'crend'}
RESIZE = {'push_back', 'emplace_back', 'insert', 'emplace', 'resize', 'append', 'operator+=', 'push_front', 'emplace_front', 'reserve', 'shrink_to_fit',
          'replace'}
REPLACE = {'clear', 'assign', 'operator=', 'swap'}
SAME = {'std::move', 'std::forward', 'std::as_const', 'std::addressof', 'std::__addressof', 'std::ref', 'std::cref', 'std::get', 'std::min',
        'std::max', 'std::make_pair', 'std::make_tuple', 'std::tie', 'std::forward_as_tuple'}
BOUND = {'std::begin', 'std::end', 'std::cbegin', 'std::cend', 'std::data', 'std::rbegin', 'std::rend'}
JOIN = 40


class State:
    __slots__ = ('env', 'facts', 'const', 'temps', 'reserved')

    def __init__(self):
        self.env, self.facts, self.const, self.temps, self.reserved = {}, {}, {}, [], frozenset()

    def copy(self):
        s = State()
        s.env, s.facts, s.const, s.temps, s.reserved = dict(self.env), dict(self.facts), dict(self.const), list(self.temps), self.reserved
        return s

    def key(self):
        return (frozenset((k, v) for k, v in self.env.items() if v), frozenset(self.facts.items()), frozenset(self.const.items()), self.reserved)


def gone(t):
    return t[0] == GONE


class Lifetime:
    def __init__(self, prog):
        self.prog = prog
        self.alarms = {}
        self.cut = set()
        self.calls = 0
        self.depth = 0
        self.stack = []
        self.texts = {}
        self.fn = None

    # ------------------------------------------------------------------ types
    def carrier(self, t, depth=0):
        if t is None or depth > 4:
            return False
        if t.k in ('ptr', 'ref', 'rref'):
            p = t.pointee
            return not (t.k == 'ptr' and p is not None and p.k == 'func')
        if t.k == 'rec':
            r = t.rec
            if r in BORROWERS or 'lambda' in (t.d.get('n') or '') or 'lambda' in (t.s or '')[:8] or r == 'std::function':
                return True
            if r in WRAPPERS:
                return any(self.carrier(a, depth + 1) for a in t.targs if hasattr(a, 'k'))
        return False

    def borrower(self, t):
        return t is not None and t.k == 'rec' and t.rec in BORROWERS

    def typ(self, e):
        return self.tu.type(e.get('t')) if e.get('t') is not None else None

    # ------------------------------------------------------------------ alarms
    def alarm(self, node, targets, what):
        for t in targets:
            if gone(t):
                self.alarms.setdefault((self.where(node), what, t[1], t[2]), self.fn)
                return True
        return False

    def where(self, node):
        f = self.stack[-1]
        return (self.tu.files[f.body['file']], node.get('l') or self.line)

    def kill(self, st, hit, why, node):
        at = self.where(node)
        mark = (GONE, why, '%s:%s' % (at[0].rsplit('/', 1)[-1], at[1]))
        for k, v in list(st.env.items()):
            if any(not gone(t) and hit(t) for t in v):
                st.env[k] = frozenset(mark if not gone(t) and hit(t) else t for t in v)

    def kill_root(self, st, root, why, node):
        n = len(root)
        for k in list(st.env):
            if k[:n] == root:
                del st.env[k]
        self.kill(st, lambda t: t[:n] == root, why, node)

    # ------------------------------------------------------------------ values
    def load(self, st, places):
        """Targets held by the objects at these places."""
        out = set()
        for p in places:
            if gone(p):
                out.add(p)
                continue
            q = p
            while q:
                if q in st.env:
                    out |= st.env[q]
                    break
                if len(q) <= 1 or q[-1][0] == 'e':
                    break
                q = q[:-1]
        return frozenset(out)

    def store(self, st, places, val, weak=False):
        for p in places:
            if not gone(p):
                if weak or len(places) > 1:
                    val = val | st.env.get(p, frozenset())
                if val or p in st.env:
                    st.env[p] = frozenset(val)

    def value(self, st, r):
        """Targets of a result used as a value."""
        k, x = r
        return x if k == 'V' else self.load(st, x)

    def deref(self, st, e, targets, what):
        """Places a pointer refers to."""
        self.alarm(e, targets, what)
        ts = frozenset(t for t in targets if not gone(t))
        return ts or frozenset([(('p', id(e)),)])

    def forget(self, st, d):
        """Facts about a variable are void once it changes."""
        st.const.pop(d, None)
        for k in [k for k in st.facts if ('"d":%d,' % d) in self.texts[k] or ('"d":%d}' % d) in self.texts[k]]:
            del st.facts[k]

    # ------------------------------------------------------------------ expressions: lists of (state, ('L', places) | ('V', targets))
    def evs(self, st, es):
        out = [(st, [])]
        for e in es:
            nxt = []
            for s, vs in out:
                for s2, v in self.ev(s, e):
                    nxt.append((s2, vs + [v]))
            out = nxt
        return out

    NOV = ('V', frozenset())

    def ev(self, st, e):
        if not isinstance(e, dict):
            return [(st, self.NOV)]
        self.line = e.get('l') or self.line
        f = getattr(self, 'e_' + e['k'], None)
        if f:
            return f(st, e)
        out = [(st, self.NOV)]
        for c in self.children(e):
            out = [(s2, self.NOV) for s, _ in out for s2, _ in self.ev(s, c)]
        return out

    def children(self, e):
        for k, v in e.items():
            if isinstance(v, dict) and 'k' in v:
                yield v
            elif isinstance(v, list):
                for x in v:
                    if isinstance(x, dict) and 'k' in x:
                        yield x

    def through(self, st, e):
        return self.ev(st, e['e'])

    e_tobool = e_stdil = through

    def e_void(self, st, e):
        return [(s, self.NOV) for s, v in self.ev(st, e['e'])]

    def e_decay(self, st, e):
        return [(s, ('V', r[1]) if r[0] == 'L' else r) for s, r in self.ev(st, e['e'])]

    def e_cast(self, st, e):
        out = []
        for s, r in self.ev(st, e['e']):
            t = self.typ(e)
            if e.get('lv') or r[0] == 'L':
                out.append((s, r))
            else:
                out.append((s, r if self.carrier(t) else self.NOV))
        return out

    def e_l2r(self, st, e):
        out = []
        for s, (k, x) in self.ev(st, e['e']):
            if k == 'L':
                self.alarm(e, x, 'reads')
                x = frozenset(p for p in x if not gone(p))
                out.append((s, ('V', self.load(s, x) if self.carrier(self.typ(e)) else frozenset())))
            else:
                out.append((s, (k, x)))
        return out

    def e_tmp(self, st, e):
        root = (('t', id(e)),)
        out = []
        for s, r in self.ev(st, e['e']):
            s.env.pop(root, None)
            if r[0] == 'V' and r[1]:
                s.env[root] = r[1]
            s.temps.append((root, bool(e.get('ext'))))
            out.append((s, ('L', frozenset([root]))))
        return out

    def e_this(self, st, e):
        return [(st, ('V', st.env.get((('this',),)) or frozenset([(('this',), ('*',))])))]

    def e_ref(self, st, e):
        d = e['d']
        if 'g' in e:
            return [(st, ('L', frozenset([(('g', e['g']),)])))]
        t = self.typ(e)
        root = (('v', d),)
        if d in self.aliases:
            ts = st.env.get(root)
            return [(st, ('L', ts if ts else frozenset([(('o', d),)])))]
        return [(st, ('L', frozenset([root])))]

    def e_mem(self, st, e):
        out = []
        for s, r in self.ev(st, e['b']):
            if e.get('arrow'):
                ps = self.deref(s, e, self.value(s, r), 'accesses')
            elif r[0] == 'L':
                ps = r[1]
                self.alarm(e, ps, 'accesses')
                ps = frozenset(p for p in ps if not gone(p)) or frozenset([(('p', id(e)),)])
            else:
                out.append((s, r))
                continue
            out.append((s, ('L', frozenset(p + (('f', e['f']),) for p in ps))))
        return out

    def e_un(self, st, e):
        op, out = e['op'], []
        for s, r in self.ev(st, e['e']):
            if op == '*':
                out.append((s, ('L', self.deref(s, e, self.value(s, r), 'dereferences'))))
            elif op == '&':
                out.append((s, ('V', r[1]) if r[0] == 'L' else r))
            elif op in ('++', '--', 'p++', 'p--'):
                out.append((s, self.advance(s, e, r, op[0] == 'p')))
                self.changed(s, e['e'])
            else:
                out.append((s, self.NOV))
        return out

    def advance(self, s, e, r, post):
        if r[0] != 'L':
            return r
        old = self.load(s, r[1])
        self.alarm(e, [t for t in old if gone(t) and t[1] != 'the variable went out of scope'], 'advances')
        new = frozenset(t if gone(t) else self.other(t, e) for t in old)
        if old:
            self.store(s, r[1], frozenset(t for t in new if not gone(t)))
        return ('V', old) if post else r

    def other(self, t, e, end=False):
        """Another element of the container a target is in."""
        if t and t[-1][0] == 'e':
            return t[:-1] + (('e', id(e), 'end' if end else ''),)
        return t

    def changed(self, st, lhs):
        while isinstance(lhs, dict) and lhs['k'] in ('mem', 'idx', 'l2r', 'cast', 'un'):
            lhs = lhs.get('b') or lhs.get('e')
        if isinstance(lhs, dict) and lhs['k'] == 'ref':
            self.forget(st, lhs['d'])

    def e_asg(self, st, e):
        out = []
        for s, (rb, ra) in ((s, vs) for s, vs in self.evs(st, [e['b'], e['a']])):
            if ra[0] == 'L':
                self.alarm(e, ra[1], 'writes to')
                ps = frozenset(p for p in ra[1] if not gone(p))
                if self.carrier(self.typ(e)):
                    v = self.value(s, rb)
                    if e['op'] != '=':
                        v = frozenset(t if gone(t) else self.other(t, e) for t in self.load(s, ps))
                    self.store(s, ps, v)
                self.changed(s, e['a'])
                if e['op'] == '=' and e['a']['k'] == 'ref' and isinstance(e['b'], dict) and e['b']['k'] == 'int':
                    s.const[e['a']['d']] = e['b']['v']
            out.append((s, ra))
        return out

    def e_bin(self, st, e):
        op = e['op']
        if op in ('&&', '||'):
            out = []
            for s, c in self.cond(st, e['a']):
                if c == (op == '&&'):
                    out += [(s2, self.NOV) for s2, _ in self.cond(s, e['b'])]
                else:
                    out.append((s, self.NOV))
            return out
        out = []
        for s, (a, b) in self.evs(st, [e['a'], e['b']]):
            if op == ',':
                out.append((s, b))
            elif op in ('+', '-') and self.carrier(self.typ(e)):
                out.append((s, ('V', frozenset(t if gone(t) else self.other(t, e) for t in self.value(s, a) | self.value(s, b)))))
            else:
                out.append((s, self.NOV))
        return out

    def e_cond(self, st, e):
        out = []
        for s, c in self.cond(st, e['c']):
            for s2, r in self.ev(s, e['a'] if c else e['b']):
                out.append((s2, r))
        return out

    def e_idx(self, st, e):
        out = []
        for s, (b, i) in self.evs(st, [e['b'], e['i']]):
            ps = self.deref(s, e, self.value(s, b), 'indexes')
            out.append((s, ('L', frozenset(self.other(p, e) if p[-1][0] == 'e' else p + (('i',),) for p in ps))))
        return out

    def e_lambda(self, st, e):
        ts = set()
        for c in e['caps']:
            if 'd' in c:
                root = (('v', c['d']),)
                if c.get('i'):
                    for s, r in self.ev(st, c['i']):
                        if c['ref']:
                            self.aliases.add(c['d'])
                        st.env[root] = r[1] if c['ref'] else self.value(s, r)
                        ts |= st.env[root]
                elif c['ref']:
                    ts |= (st.env.get(root, frozenset()) if c['d'] in self.aliases else {root})
                elif self.carrier(self.vartypes.get(c['d'])):
                    ts |= st.env.get(root, frozenset())
        v = ('V', frozenset(ts))
        self.closures[id(e)] = e
        return [(st, ('V', frozenset(ts) | {(('lam', id(e)),)}))]

    def e_new(self, st, e):
        return [(s, self.NOV) for s, _ in (self.ev(st, e['i']) if e.get('i') else [(st, None)])]

    def e_il(self, st, e):
        out = []
        for s, vs in self.evs(st, e['a']):
            v = frozenset()
            if self.carrier(self.typ(e)):
                for r in vs:
                    v |= self.value(s, r)
            out.append((s, ('V', v)))
        return out

    def e_ctor(self, st, e):
        fn = self.tu.fns[e['c']]
        t = self.typ(e)
        out = []
        for s, vs in self.evs(st, e['a']):
            self.used(s, e, fn, vs)
            v = frozenset()
            if self.carrier(t):
                for i, r in enumerate(vs):
                    if t.rec == 'std::basic_string_view' and r[0] == 'L' and not self.borrower(fn.params[i].noref if i < len(fn.params) else None):
                        v |= frozenset(p if gone(p) else p + (('e', id(e), ''),) for p in r[1])
                    elif t.rec == 'std::reference_wrapper' and not fn.d.get('copyctor'):
                        v |= r[1]
                    else:
                        v |= self.value(s, r)
            out.append((s, ('V', v)))
        return out

    def used(self, s, e, fn, vs):
        """Arguments handed to a function must not be gone."""
        ps = fn.params
        for i, r in enumerate(vs):
            t = ps[i] if i < len(ps) else None
            if r[0] == 'L':
                if self.alarm(e, r[1], 'passes'):
                    continue
                if t is not None and (self.carrier(t.noref) if t.k in ('ref', 'rref') else self.carrier(t)):
                    if t.k in ('ref', 'rref') and (not t.noref.const and fn.n not in ('pair', 'make_pair') and not self.borrower(t.noref)):
                        continue        # may be an output
                    self.alarm(e, self.load(s, r[1]), 'passes')
            elif t is None or self.carrier(t):
                self.alarm(e, r[1], 'passes')

    def e_icall(self, st, e):
        out = []
        subs = ([e['o']] if e.get('o') else []) + ([e['fe']] if e.get('fe') else []) + e['a']
        for s, vs in self.evs(st, subs):
            for r in vs[-len(e['a']):] if e['a'] else []:
                self.alarm(e, r[1] if r[0] == 'V' else r[1], 'passes')
            out.append((s, self.NOV))
        return out

    # ------------------------------------------------------------------ calls
    def e_call(self, st, e):
        fn = self.tu.fns[e['c']]
        out = []
        subs = ([e['o']] if e.get('o') is not None else []) + e['a']
        self.calls += 1
        for s, vs in self.evs(st, subs):
            obj, args = (vs[0], vs[1:]) if e.get('o') is not None else (None, vs)
            out += self.call(s, e, fn, obj, args)
        return out

    def call(self, s, e, fn, obj, args):
        lv = e.get('lv')
        t = self.typ(e)
        rec = (fn.rectype.rec if fn.rectype is not None else '') if fn.d.get('method') else ''
        box = lambda ts: ('L', frozenset(ts)) if lv else ('V', frozenset(ts) if self.carrier(t) else frozenset())
        if fn.d.get('lambda') or rec == 'std::function':
            ts = self.value(s, obj) if obj else frozenset()
            if self.alarm(e, [x for x in ts if gone(x)], 'calls a closure over'):
                return [(s, box(()))]
            target = self.prog.resolve(fn) or fn
            if target.body is not None and len(self.stack) < 6 and target not in self.stack:
                return self.inline(s, e, target, None, args, box)
            self.used(s, e, fn, args)
            return [(s, box(()))]
        places = None
        if obj is not None:
            iters = self.borrower(fn.rectype) or (rec in WRAPPERS and self.carrier(fn.rectype))
            ptrlike = e.get('arrow')
            if ptrlike:
                places = self.deref(s, e, self.value(s, obj), 'calls %s on' % fn.n)
            elif obj[0] == 'L':
                self.alarm(e, obj[1], 'calls %s on' % fn.n)
                places = frozenset(p for p in obj[1] if not gone(p)) or frozenset([(('p', id(e)),)])
            else:
                places = frozenset()
            if iters:
                return [(s, self.iterator(s, e, fn, obj, places, args, box))]
        q = fn.q
        if q in SAME:
            v = frozenset()
            for r in args:
                v |= r[1] if lv and r[0] == 'L' else r[1] if q in ('std::ref', 'std::cref', 'std::addressof', 'std::__addressof') and r[0] == 'L' else self.value(s, r)
            return [(s, ('L', v) if lv else ('V', v if self.carrier(t) else frozenset()))]
        if q in BOUND and args and args[0][0] == 'L':
            return [(s, box(p + (('e', id(e), fn.n),) if not gone(p) else p for p in args[0][1]))]
        target = self.prog.resolve(fn)
        if target is not None and target.d.get('proj') and not fn.d.get('ctor') and len(self.stack) < 6 and target not in self.stack:
            self.used(s, e, fn, args)
            return self.inline(s, e, target, places, args, box)
        if fn.d.get('op') in ('++', '--') and args and args[0][0] == 'L':
            return [(s, self.advance(s, e, args[0], len(args) > 1))]
        self.used(s, e, fn, args)
        if rec in VECS or rec in NODES or rec in ('std::filesystem::path', 'std::filesystem::__cxx11::path', 'std::array', 'std::__cxx11::basic_string') or rec.startswith('std::') and fn.n in ('data', 'c_str'):
            return [(s, self.container(s, e, fn, rec, places, args, box))]
        if rec in ('std::unique_ptr', 'std::optional') and fn.n in ('get', 'operator*', 'operator->', 'value'):
            return [(s, box(p + (('e', id(e), ''),) for p in places))]
        if rec == 'std::unique_ptr' and fn.n in ('reset', 'operator='):
            self.kill(s, lambda x: any(x[:len(p)] == p and len(x) > len(p) and x[len(p)][0] == 'e' for p in places), 'its owner was reset', e)
            return [(s, box(()))]
        if obj is not None and fn.d.get('op') and fn.d['op'] == '=':
            self.store(s, places, self.value(s, args[0]) if args and self.carrier(fn.rectype) else frozenset())
            return [(s, ('L', places))]
        if q.startswith('std::') and t is not None and (self.borrower(t) or t.k == 'ptr') and args:
            # algorithms: an iterator into the same range
            v = self.value(s, args[0]) if args[0][0] == 'V' or self.borrower(fn.params[0].noref if fn.params else None) else frozenset()
            same = t.k == 'ptr' or self.borrower(t)
            return [(s, ('V', frozenset(x if gone(x) else self.other(x, e) for x in v) if same else frozenset()))]
        if fn.d.get('op') in ('+', '-') and t is not None and self.borrower(t):
            v = frozenset()
            for r in args:
                v |= self.value(s, r)
            return [(s, ('V', frozenset(x if gone(x) else self.other(x, e) for x in v)))]
        if fn.d.get('op') == '<<' and args:
            return [(s, args[0])]
        return [(s, box(()))]

    def iterator(self, s, e, fn, obj, places, args, box):
        """Methods of iterators, views, pairs and reference wrappers."""
        held = self.load(s, places) if obj[0] == 'L' or e.get('arrow') else obj[1]
        n = fn.n
        if n == 'operator=' or n == 'swap':
            v = self.value(s, args[0]) if args else frozenset()
            self.store(s, places, v)
            for p in places:
                if p[0][0] == 'v':
                    self.forget(s, p[0][1])
            return ('L', places)
        self.alarm(e, held, 'uses')
        live = frozenset(t for t in held if not gone(t))
        for p in places:
            if p[0][0] == 'v' and n in ('operator++', 'operator--', 'operator+=', 'operator-='):
                self.forget(s, p[0][1])
        if n in ('operator++', 'operator--', 'operator+=', 'operator-=') and obj[0] == 'L':
            new = frozenset(self.other(t, e) for t in live)
            self.store(s, places, new)
            return ('V', live) if args and n in ('operator++', 'operator--') else ('L', places)
        if n in ('operator+', 'operator-'):
            return box(self.other(t, e) for t in live)
        if n in ('operator*', 'operator->', 'operator[]', 'get', 'base', 'data', 'begin', 'end', 'cbegin', 'cend', 'substr', 'front', 'back', 'at',
                 'value'):
            ts = live or frozenset([(('p', id(e)),)])
            return ('L', ts) if e.get('lv') else ('V', ts)
        for r in args:
            self.alarm(e, self.value(s, r) if r[0] == 'V' or self.borrower(fn.params[0].noref if fn.params else None) else frozenset(), 'uses')
        return box(())

    def container(self, s, e, fn, rec, places, args, box):
        n, vec = fn.n, rec in VECS
        into = lambda x, p: len(x) > len(p) and x[:len(p)] == p and x[len(p)][0] == 'e'
        what = 'the %s was changed by %s' % (rec.replace('std::', '').replace('basic_', ''), n)
        if n in REPLACE and n != 'swap':
            self.kill(s, lambda x: any(into(x, p) or n == 'operator=' and len(x) > len(p) and x[:len(p)] == p and any(y[0] == 'e' for y in x[len(p):])
                                       for p in places), what, e)
        elif n == 'erase' or n == 'extract':
            ids, whole = set(), rec == 'std::basic_string'
            for r in args[:1]:
                for x in (self.value(s, r) if r[0] == 'V' or self.borrower(fn.params[0].noref if fn.params else None) else r[1]):
                    # an iterator, or a key that lives in the element itself
                    for p in places:
                        if not gone(x) and into(x, p):
                            ids.add(x[:len(p) + 1])
            if args and isinstance(e['a'][0], dict):
                txt = self.text(e['a'][0])
                for p in places:
                    ids.add(p + (('e', txt, 'key'),))
            self.kill(s, lambda x: any(into(x, p) and (whole or x[:len(p) + 1] in ids or vec and x[len(p)][-1] == 'end' or
                                                       x[len(p)][0] == 'e' and ('e', x[len(p)][1], 'key') == x[len(p)] and x[:len(p) + 1] in ids)
                                       for p in places), 'the element was erased', e)
        elif n == 'pop_back' or n == 'pop_front':
            self.kill(s, lambda x: any(into(x, p) and x[len(p)][-1] in ('end', n[4:].replace('front', 'front')) for p in places), 'the element was removed', e)
        elif n in RESIZE and vec:
            for p in places:
                if p in s.reserved and n in ('push_back', 'emplace_back') or rec == 'std::deque':
                    self.kill(s, lambda x: into(x, p) and x[len(p)][-1] == 'end', what, e)
                else:
                    self.kill(s, lambda x: into(x, p), what, e)
            if n == 'reserve':
                s.reserved = s.reserved | places
        elif n in RESIZE and rec.startswith('std::unordered') and n in ('insert', 'emplace', 'operator[]', 'try_emplace'):
            pass
        if fn.d.get('const') is not True or n in ACCESS:
            for p in places:
                if p[0][0] == 'v' and not fn.d.get('const') and n not in ACCESS | {'size'}:
                    self.forget(s, p[0][1])
        if n in ('operator=', 'operator+=', 'assign', 'append'):
            return ('L', places)
        if n in ACCESS and (e.get('lv') or self.carrier(self.typ(e))):
            ident = ('e', id(e), 'end' if n in ENDS else n if n in ('back', 'front') else '')
            if n == 'find' and args and isinstance(e['a'][0], dict):
                ident = ('e', self.text(e['a'][0]), 'key')
            if n == 'native':
                return box(p + (('f', 'native'),) for p in places)
            return box(p + (ident,) for p in places)
        return box(())

    def text(self, e):
        k = id(e)
        if k not in self.texts:
            def strip(x):
                if isinstance(x, dict):
                    return {a: strip(b) for a, b in x.items() if a != 'l'}
                if isinstance(x, list):
                    return [strip(b) for b in x]
                return x
            t = json.dumps(strip(e), sort_keys=True, separators=(',', ':'))
            self.texts[k] = t
            self.texts[t] = t
            self.keep.append(e)
        return self.texts[k]

    def inline(self, s, e, fn, this, args, box):
        old = (self.tu, self.fn)
        self.stack.append(fn)
        tu = fn.tu
        if fn.tu is not old[0]:
            # variables of another unit are other variables
            self.stack.pop()
            return [(s, box(()))]
        saved_this = s.env.get((('this',),))
        if this is not None:
            s.env[(('this',),)] = this
        roots = []
        for p, r in zip(fn.body['p'], args):
            root = (('v', p['d']),)
            t = tu.type(p['t'])
            self.vartypes[p['d']] = t
            if t.k in ('ref', 'rref'):
                self.aliases.add(p['d'])
                s.env[root] = r[1] if r[0] == 'L' else frozenset([(('p', id(e)),)])
            elif self.carrier(t) or t.k == 'rec' and 'lambda' in t.s:
                s.env[root] = self.value(s, r)
            roots.append((p['d'], t))
        temps, s.temps = s.temps, []
        res = self.exec(s, fn.body['b'])
        out = []
        for st, o in res:
            st.env.pop((('ret',),), None)
            if isinstance(o, tuple) and o[0] == 'ret':
                st.env[(('ret',),)] = o[1][1] if o[1] else frozenset()
            self.leave(st, [(d, t) for d, t in roots], fn.body)
            rt = fn.ret
            v = st.env.pop((('ret',),), frozenset())
            if not (rt.k in ('ref', 'rref') or self.carrier(rt)):
                v = frozenset()
            st.temps = list(temps)
            st.env.pop((('this',),), None)
            if saved_this is not None:
                st.env[(('this',),)] = saved_this
            if e.get('lv'):
                out.append((st, ('L', v or frozenset([(('p', id(e)),)]))))
            else:
                out.append((st, ('V', v)))
        self.stack.pop()
        return self.merge(out)

    def merge(self, out):
        """Equal states once; too many states are joined: first the facts about conditions, then the targets."""
        res = {}
        for s, v in out:
            res.setdefault((s.key(), v), (s, v))
        if len(res) <= JOIN:
            return list(res.values())
        for level in (0, 1):
            groups = {}
            for (k, v), (s, _) in res.items():
                kind = (v[0], v[1][0] if isinstance(v[1], tuple) else v[1]) if isinstance(v, tuple) else v
                groups.setdefault((k[0], v) if not level else kind, []).append((s, v))
            res = {}
            for g in groups.values():
                s, v = g[0]
                for s2, v2 in g[1:]:
                    s.facts = {a: b for a, b in s.facts.items() if s2.facts.get(a) == b}
                    s.const = {a: b for a, b in s.const.items() if s2.const.get(a) == b}
                    s.reserved = s.reserved | s2.reserved
                    if level:
                        for a, b in s2.env.items():
                            s.env[a] = s.env.get(a, frozenset()) | b
                        v = self.join(v, v2)
                res[s.key(), v] = (s, v)
            if len(res) <= JOIN:
                break
        return list(res.values())

    def join(self, v, w):
        if v == w or not isinstance(v, tuple):
            return v
        if v[0] in ('L', 'V'):
            return (v[0], v[1] | w[1])
        if v[0] == 'ret' and v[1] and w[1]:
            return ('ret', (v[1][0], v[1][1] | w[1][1]))
        return v

    # ------------------------------------------------------------------ conditions
    def cond(self, st, e):
        """[(state, bool)]: both outcomes unless one is known."""
        if e['k'] == 'int':
            return [(st, int(e['v']) != 0)]
        if e['k'] in ('tobool',):
            return self.cond(st, e['e'])
        if e['k'] == 'un' and e['op'] == '!':
            return [(s, not c) for s, c in self.cond(st, e['e'])]
        if e['k'] == 'bin' and e['op'] in ('&&', '||'):
            out = []
            for s, c in self.cond(st, e['a']):
                if c == (e['op'] == '&&'):
                    out += self.cond(s, e['b'])
                else:
                    out.append((s, c))
            return out
        core = e
        while core['k'] in ('l2r', 'cast') and isinstance(core.get('e'), dict):
            core = core['e']
        known = None
        if core['k'] == 'ref' and core['d'] in st.const:
            known = int(st.const[core['d']]) != 0
        flip, txt = self.canon(e)
        out = []
        for s, _ in self.merge(self.ev(st, e)):
            k = known
            if k is None and txt in s.facts:
                k = s.facts[txt] != flip
            if k is not None:
                out.append((s, k))
                continue
            s2 = s.copy()
            if self.counts.get(txt, 0) > 1:
                s.facts[txt] = True != flip
                s2.facts[txt] = False != flip
            out += [(s, True), (s2, False)]
        return out

    def canon(self, e):
        """Text of a condition up to negation."""
        if e['k'] == 'call':
            f = self.tu.fns[e['c']]
            if f.d.get('op') == '!=':
                return True, self.text(e).replace('"c":%d' % e['c'], '"c":"=="')
            if f.d.get('op') == '==':
                return False, self.text(e).replace('"c":%d' % e['c'], '"c":"=="')
        if e['k'] == 'bin' and e['op'] == '!=':
            t = self.text(e).replace('"op":"!="', '"op":"=="', 1)
            self.texts[t] = t
            return True, t
        t = self.text(e)
        self.texts[t] = t
        return False, t

    def count(self, body):
        """How often each condition occurs: facts are only kept for repeated ones."""
        self.counts = {}

        def go(x):
            if isinstance(x, dict):
                if x.get('k') in ('if', 'while', 'for', 'do', 'cond') and isinstance(x.get('c'), dict):
                    conj(x['c'])
                for v in x.values():
                    go(v)
            elif isinstance(x, list):
                for v in x:
                    go(v)

        def conj(c):
            if c['k'] == 'un' and c['op'] == '!' or c['k'] == 'tobool':
                return conj(c['e'])
            if c['k'] == 'bin' and c['op'] in ('&&', '||'):
                conj(c['a'])
                return conj(c['b'])
            t = self.canon(c)[1]
            self.texts[t] = t
            self.counts[t] = self.counts.get(t, 0) + 1
        go(body)

    # ------------------------------------------------------------------ statements: lists of (state, None | 'break' | 'cont' | ('ret', result))
    def exec(self, st, x):
        if not isinstance(x, dict):
            return [(st, None)]
        self.line = x.get('l') or self.line
        f = getattr(self, 's_' + x['k'], None)
        if f:
            return f(st, x)
        out = []
        for s, _ in self.ev(st, x):
            self.endfull(s, x)
            out.append((s, None))
        return out

    def endfull(self, s, x, owner=None):
        """Temporaries die at the end of the full expression, unless a reference keeps them."""
        for root, ext in s.temps:
            if ext and owner is not None:
                owner.append((root, None))
            elif not ext:
                self.kill_root(s, root, 'the temporary is gone', x)
        s.temps = []

    def leave(self, s, vars_, x):
        for d, t in reversed(vars_):
            if t is None:
                self.kill_root(s, d, 'the temporary is gone', x)
                continue
            root = (('v', d),)
            s.const.pop(d, None)
            if t.k in ('ref', 'rref'):
                s.env.pop(root, None)
            else:
                self.kill_root(s, root, 'the variable went out of scope', x)

    def s_nop(self, st, x):
        return [(st, None)]

    def s_ex(self, st, x):
        out = []
        for s, _ in self.ev(st, x['e']):
            self.endfull(s, x)
            out.append((s, None))
        return out

    def s_decl(self, st, x, scope=None):
        states = [st]
        scope = self.scopes[-1] if self.scopes else []
        for v in x['v']:
            nxt = []
            for s in states:
                nxt += self.declare(s, v, x, scope)
            states = nxt
        return [(s, None) for s in states]

    def declare(self, st, v, x, scope):
        d, t = v['d'], self.tu.type(v['t'])
        root = (('v', d),)
        self.vartypes[d] = t
        isref = t.k in ('ref', 'rref')
        if isref:
            self.aliases.add(d)
        out = []
        for s, r in (self.ev(st, v['i']) if v.get('i') else [(st, None)]):
            s.env.pop(root, None)
            s.const.pop(d, None)
            if r is not None:
                if isref:
                    s.env[root] = r[1] if r[0] == 'L' else frozenset()
                elif self.carrier(t):
                    s.env[root] = self.value(s, r)
                if isinstance(v.get('i'), dict) and v['i']['k'] == 'int':
                    s.const[d] = v['i']['v']
            own = []
            self.endfull(s, x, own)
            for b in v.get('binds', []):
                bt = None
                self.aliases.add(b['d'])
                base = s.env.get(root, frozenset([root])) if isref else frozenset([root])
                init = b.get('i') or b.get('e')
                s.env[(('v', b['d']),)] = frozenset(base)
            for o in own:
                if o not in scope:
                    scope.append(o)
            if not v.get('static') and (d, t) not in scope:
                scope.append((d, t))
            out.append(s)
        return out

    def s_blk(self, st, x):
        self.scopes.append([])
        outs, labels = [], {c['d']: i for i, c in enumerate(x['s']) if c['k'] == 'label'}
        cur = [(st, None)]
        pend = {}
        for i, c in enumerate(x['s']):
            cur = self.merge(cur + pend.pop(i, []))
            nxt = []
            for s, o in cur:
                for s2, o2 in self.exec(s, c):
                    if isinstance(o2, tuple) and o2[0] == 'goto' and o2[1] in labels:
                        if labels[o2[1]] > i:
                            pend.setdefault(labels[o2[1]], []).append((s2, None))
                    else:
                        (outs if o2 is not None else nxt).append((s2, o2))
            cur = self.merge(nxt)
        vars_ = self.scopes.pop()
        res = []
        for s, o in outs + cur:
            self.hold(s, o)
            self.leave(s, vars_, {'l': x.get('l2') or x.get('l')})
            res.append((s, self.unhold(s, o)))
        return self.merge(res)

    def hold(self, s, o):
        if isinstance(o, tuple) and o[0] == 'ret' and o[1]:
            s.env[(('held', len(self.stack)),)] = o[1][1]

    def unhold(self, s, o):
        if isinstance(o, tuple) and o[0] == 'ret' and o[1]:
            return ('ret', (o[1][0], s.env.pop((('held', len(self.stack)),), frozenset())))
        return o

    def s_if(self, st, x):
        self.scopes.append([])
        out = []
        cur = [st]
        if x.get('init'):
            cur = [s for s, _ in self.exec(st, x['init'])]
        if x.get('cv'):
            cur = [s2 for s in cur for s2, _ in self.exec(s, x['cv'])]
        for s in cur:
            for s2, c in self.cond(s, x['c']):
                self.endfull(s2, x)
                b = x['a'] if c else x.get('b')
                out += self.exec(s2, b) if b else [(s2, None)]
        vars_ = self.scopes.pop()
        res = []
        for s, o in out:
            self.hold(s, o)
            self.leave(s, vars_, x)
            res.append((s, self.unhold(s, o)))
        return self.merge(res)

    def loop(self, st, x, cond, body, inc, first=True):
        out, cur = [], [st]
        for n in range(3):
            nxt = []
            for s in cur:
                for s2, c in (self.cond(s, cond) if cond and (first or n) else [(s, True)] if cond or first else [(s, True)]):
                    self.endfull(s2, x)
                    if not c:
                        out.append((s2, None))
                        continue
                    if n == 2:
                        out.append((s2, None))
                        continue
                    if not cond:
                        out.append((s2.copy(), None))
                    for s3, o in self.exec(s2, body):
                        if o == 'break':
                            out.append((s3, None))
                        elif o in (None, 'cont'):
                            for s4, _ in (self.ev(s3, inc) if inc else [(s3, None)]):
                                self.endfull(s4, x)
                                nxt.append((s4, None))
                        else:
                            out.append((s3, o))
            cur = [s for s, _ in self.merge(nxt)]
        return self.merge(out + [(s, None) for s in cur])

    def s_for(self, st, x):
        self.scopes.append([])
        out = []
        for s, _ in (self.exec(st, x['init']) if x.get('init') else [(st, None)]):
            out += self.loop(s, x, x.get('c'), x['b'], x.get('inc'))
        vars_ = self.scopes.pop()
        return self.closing(out, vars_, x)

    def closing(self, out, vars_, x):
        res = []
        for s, o in out:
            self.hold(s, o)
            self.leave(s, vars_, x)
            res.append((s, self.unhold(s, o)))
        return self.merge(res)

    def s_while(self, st, x):
        self.scopes.append([])
        st_ = [s for s, _ in self.exec(st, x['cv'])] if x.get('cv') else [st]
        out = []
        for s in st_:
            out += self.loop(s, x, x['c'], x['b'], None)
        return self.closing(out, self.scopes.pop(), x)

    def s_do(self, st, x):
        return self.loop(st, x, x['c'], x['b'], None, first=False)

    def s_forr(self, st, x):
        self.scopes.append([])
        scope = self.scopes[-1]
        out = []
        cur = self.exec(st, x['init']) if x.get('init') else [(st, None)]
        hid = (('hid', id(x)),)
        for s0, _ in cur:
            for s, r in self.ev(s0, x['r']):
                cont = r[1] if r[0] == 'L' else frozenset(t[:-1] if not gone(t) and t[-1][0] == 'e' else t for t in r[1])
                s.env[(('hidr', id(x)),)] = cont
                own = []
                for root, ext in s.temps:
                    if ('L', frozenset([root])) == r:
                        own.append((root, None))
                s.temps = [(a, b) for a, b in s.temps if (a, None) not in own]
                self.endfull(s, x, own)
                cont = s.env.pop((('hidr', id(x)),))
                self.alarm(x, cont, 'iterates over')
                cont = frozenset(c for c in cont if not gone(c))
                s.env[hid] = frozenset(c + (('e', id(x), ''),) for c in cont)
                s.env[(('hide', id(x)),)] = frozenset(c + (('e', id(x), 'end'),) for c in cont)
                states = [s]
                for n in range(2):
                    nxt = []
                    for s1 in states:
                        out.append((s1.copy(), None))
                        v = x['v']
                        t = self.tu.type(v['t'])
                        self.vartypes[v['d']] = t
                        root = (('v', v['d']),)
                        elem = s1.env.get(hid, frozenset())
                        if self.alarm(x, elem | s1.env.get((('hide', id(x)),), frozenset()), 'goes on iterating although'):
                            continue
                        s1.env.pop(root, None)
                        if t.k in ('ref', 'rref'):
                            self.aliases.add(v['d'])
                            s1.env[root] = elem
                        for b in v.get('binds', []):
                            self.aliases.add(b['d'])
                            s1.env[(('v', b['d']),)] = elem if t.k in ('ref', 'rref') else frozenset([root])
                        for s2, o in self.exec(s1, x['b']):
                            s2.const.pop(v['d'], None)
                            if o == 'break':
                                out.append((s2, None))
                            elif o in (None, 'cont'):
                                self.leave(s2, [(v['d'], t)], x)
                                nxt.append((s2, None))
                            else:
                                out.append((s2, o))
                    states = [a for a, _ in self.merge(nxt)]
                for s1 in states:
                    if not self.alarm(x, s1.env.get(hid, frozenset()) | s1.env.get((('hide', id(x)),), frozenset()), 'goes on iterating although'):
                        out.append((s1, None))
                for o_ in own:
                    scope.append(o_)
        for s, o in out:
            s.env.pop(hid, None)
            s.env.pop((('hide', id(x)),), None)
        return self.closing(out, self.scopes.pop(), x)

    def s_ret(self, st, x):
        out = []
        rt = self.stack[-1].ret
        for s, r in (self.ev(st, x['e']) if x.get('e') else [(st, None)]):
            if r is not None:
                v = r[1] if rt.k in ('ref', 'rref') and r[0] == 'L' else self.value(s, r) if self.carrier(rt) else frozenset()
                s.env[(('held', len(self.stack)),)] = v
                self.endfull(s, x)
                r = ('V', s.env.pop((('held', len(self.stack)),)))
            self.retline = x.get('l')
            out.append((s, ('ret', r)))
        return out

    def s_break(self, st, x):
        return [(st, 'break')]

    def s_cont(self, st, x):
        return [(st, 'cont')]

    def s_label(self, st, x):
        return self.exec(st, x['s'])

    def s_goto(self, st, x):
        return [(st, ('goto', x['d']))]

    def s_switch(self, st, x):
        out = []
        self.scopes.append([])
        cur = self.exec(st, x['init']) if x.get('init') else [(st, None)]
        for s0, _ in cur:
            for s, _ in self.ev(s0, x['c']):
                self.endfull(s, x)
                stmts = x['b'].get('s', []) if x['b']['k'] == 'blk' else [x['b']]
                starts = [i for i, c in enumerate(stmts) if c['k'] in ('case', 'default')]
                if not any(c['k'] == 'default' for c in stmts):
                    out.append((s.copy(), None))
                for i in starts:
                    run = [(s.copy(), None)]
                    for c in stmts[i:]:
                        nxt = []
                        for a, _ in run:
                            while c['k'] in ('case', 'default'):
                                c = c['s']
                            for b, o in self.exec(a, c):
                                if o is None:
                                    nxt.append((b, None))
                                else:
                                    out.append((b, None if o == 'break' else o))
                        run = self.merge(nxt)
                    out += run
        return self.closing(out, self.scopes.pop(), x)

    def s_try(self, st, x):
        out = self.exec(st.copy(), x['b'])
        for h in x['h']:
            out += self.exec(st.copy(), h['b'])
        return self.merge(out)

    def e_throw(self, st, e):
        return []

    def s_unk(self, st, x):
        return self.exec_children(st, x)

    def exec_children(self, st, x):
        self.cut.add(self.stack[0].q)
        return [(st, None)]

    # ------------------------------------------------------------------ entry
    def function(self, fn):
        self.tu, self.fn = fn.tu, fn
        self.line = fn.body['l']
        self.stack, self.scopes = [fn], []
        self.aliases, self.vartypes, self.closures, self.keep = set(), {}, {}, []
        self.texts = {}
        self.count(fn.body['b'])
        st = State()
        for p in fn.body['p']:
            t = self.tu.type(p['t'])
            self.vartypes[p['d']] = t
            if t.k in ('ref', 'rref'):
                self.aliases.add(p['d'])
            elif t.k == 'ptr':
                st.env[(('v', p['d']),)] = frozenset([(('o', p['d']),)])
        states = [st]
        for i in fn.body.get('inits', []):
            states = [s2 for s in states for s2, _ in (self.ev(s, i['i']) if i.get('i') else [(s, None)])]
        n = 0
        for s0 in states:
            s0.temps = []
            for s, o in self.exec(s0, fn.body['b']):
                n += 1
                self.hold(s, o)
                self.leave(s, [(p['d'], self.tu.type(p['t'])) for p in fn.body['p']], {'l': fn.body.get('l2')})
                o = self.unhold(s, o)
                if isinstance(o, tuple) and o[0] == 'ret' and o[1] and (fn.ret.k in ('ref', 'rref') or self.carrier(fn.ret)):
                    self.alarm({'l': fn.body.get('l2')}, o[1][1], 'returns')
                for k, v in s.env.items():
                    if k[0][0] in ('o', 'this', 'g'):
                        self.alarm({'l': fn.body.get('l2')}, v, 'leaves its caller with')
        return n
