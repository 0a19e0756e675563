"""Rules over the whole repository: lifetimes, assertions, wire format."""
import os
import re

from core import Inconclusive, strip
from lifetime import Lifetime
import export

ALL = ['security', 'graph_cache', 'gid_utils', 'qos', 'context', 'time_utils']


def c80(ctx):
    ctx.rule('Lifetime dataflow over every function of the repository: the places that pointers, references, iterators and views refer to are '
             'followed along all paths (loops twice, helpers and closures followed); the end of a temporary, of a scope, and every change of a '
             'container that invalidates its elements marks the values that refer there. No marked value is used, returned or left with the caller.')
    lt = Lifetime(ctx.prog)
    n = 0
    for f in ctx.prog.bodies(export.REPO):
        before = set(lt.alarms)
        ctx.exits += lt.function(f)
        ctx.functions[f.key] = '%s (%s)' % (f.q, strip(f.where))
        n += 1
        new = [k for k in lt.alarms if k not in before]
        ctx.ob('nothing is used after it is gone', strip(f.where), not new,
               '; '.join('%s:%d %s something that is gone: %s (%s)' % (strip(w[0]), w[1], what, why, at) for w, what, why, at in new[:3]))
        for w, what, why, at in new:
            ctx.site('%s:%d' % (strip(w[0]), w[1]))
    ctx.steps += lt.calls
    if n < 30:
        raise Inconclusive('only %d functions were found' % n)
    ctx.assume('values whose origin is a function outside the repository and the standard library refer to storage of the caller')
    for tu in ctx.prog.tus.values():
        for r in ('rmw_dds_common::EntityInfo', 'rmw_dds_common::ParticipantInfo'):
            for f in tu.records.get(r, {}).get('f', []):
                t = tu.type(f['t'])
                view = t.k in ('ref', 'rref') or t.rec in ('std::basic_string_view', 'std::span', 'std::reference_wrapper') or \
                    t.k == 'ptr' and t.pointee is not None and t.pointee.s.replace('const ', '') == 'char'
                ctx.ob('records own what they store', '%s::%s' % (r, f['n']), not view, 'member %s of %s only borrows' % (f['n'], r))


READERS = {'find', 'count', 'contains', 'begin', 'end', 'cbegin', 'cend', 'rbegin', 'rend', 'at', 'size', 'empty', 'front', 'back', 'data', 'c_str',
           'lower_bound', 'upper_bound', 'equal_range', 'operator*', 'operator->', 'get', 'has_value', 'value', 'operator bool', 'rdbuf',
           'max_size', 'key_comp', 'is_open', 'good', 'fail', 'eof', 'operator()', 'owns_lock', 'length', 'compare', 'native', 'base'}
CHANGERS = {'std::exchange', 'std::swap', 'std::iter_swap', 'std::sort', 'std::stable_sort', 'std::remove', 'std::remove_if', 'std::unique', 'std::copy',
            'std::copy_n', 'std::copy_if', 'std::transform', 'std::fill', 'std::fill_n', 'std::rotate', 'std::reverse', 'std::replace', 'std::replace_if',
            'std::generate', 'std::iota', 'std::for_each', 'std::getline', 'std::advance', 'std::partial_sort', 'std::partition'}
PURE_C = re.compile(r'^(str(n?cmp|n?len|chr|rchr|str)|memcmp|abs|isatty|.*_is_valid.*|.*_get_zero_initialized.*|.*_equal|rmw_names_and_types_check_zero|'
                    r'rmw_.*_check_zero|rcutils_get_default_allocator|rcutils_error_is_set|__builtin_.*|isnan|isinf)$')


class Effects:
    """Whether evaluating an expression can change anything but the expression's own temporaries."""

    def __init__(self, prog):
        self.prog, self.busy = prog, set()

    def of(self, tu, e, own=frozenset()):
        """Description of the first effect, or None."""
        if isinstance(e, list):
            for x in e:
                r = self.of(tu, x, own)
                if r:
                    return r
            return None
        if not isinstance(e, dict):
            return None
        k = e.get('k')
        if k == 'lambda':
            return None
        if k == 'asg' and not self.local(e['a'], own):
            return 'an assignment'
        if k == 'un' and e['op'] in ('++', '--', 'p++', 'p--') and not self.local(e['e'], own):
            return e['op'].strip('p')
        if k in ('delete', 'new', 'throw'):
            return k
        if k == 'call':
            r = self.call(tu, e, own)
            if r:
                return r
        for v in e.values():
            if isinstance(v, (dict, list)):
                r = self.of(tu, v, own)
                if r:
                    return r
        return None

    def local(self, e, own):
        while isinstance(e, dict) and e.get('k') in ('mem', 'idx', 'cast', 'decay', 'tmp'):
            if e.get('arrow'):
                return False
            e = e.get('b') or e.get('e')
        return isinstance(e, dict) and (e.get('k') == 'ref' and e.get('d') in own and 'g' not in e or e.get('k') in ('tmp', 'ctor', 'call') and not e.get('lv'))

    def call(self, tu, e, own):
        fn = tu.fns[e['c']]
        target = self.prog.resolve(fn)
        if target is not None and target.body is not None:
            if target.key in self.busy:
                return None
            self.busy.add(target.key)
            try:
                mine = {p['d'] for p in target.body['p'] if target.tu.type(p['t']).k not in ('ref', 'rref', 'ptr')}
                decls(target.body['b'], mine, target.tu)
                r = self.of(target.tu, target.body['b'], frozenset(mine))
                return r and 'a call of %s, which does %s' % (fn.q, r)
            finally:
                self.busy.discard(target.key)
        if fn.d.get('method'):
            if fn.d.get('const') or fn.n in READERS or fn.d.get('ctor') or self.local(e.get('o'), own):
                return None
            if fn.n == 'operator[]':
                rec = fn.rectype.rec if fn.rectype is not None else ''
                return 'an inserting operator[]' if 'map' in rec else None
            return 'a call of %s' % fn.q
        if fn.d.get('ctor'):
            return None
        if fn.q.startswith('std::') or fn.q.startswith('__gnu_cxx::'):
            if fn.q in CHANGERS:
                return 'a call of %s' % fn.q
            if fn.d.get('op') in ('<<', '>>') and fn.params and 'stream' in fn.params[0].s:
                return 'output'
            return None
        if fn.q == '__assert_fail' or PURE_C.match(fn.n):
            return None
        if fn.d.get('op') in ('==', '!=', '<', '>', '<=', '>='):
            return None
        if any(t.k in ('ptr', 'ref') and t.pointee is not None and not t.pointee.const for t in fn.params) or fn.q.startswith(('rcutils_', 'rmw_')):
            return 'a call of %s' % fn.q
        return None


def decls(x, out, tu):
    if isinstance(x, dict):
        if x.get('k') == 'decl':
            for v in x['v']:
                t = tu.type(v['t'])
                if t.k not in ('ref', 'rref') and not v.get('static'):
                    out.add(v['d'])
        for v in x.values():
            decls(v, out, tu)
    elif isinstance(x, list):
        for v in x:
            decls(v, out, tu)


def asserts(tu, x):
    """Conditions of the assertions in a syntax tree."""
    if isinstance(x, dict):
        if x.get('k') == 'cond':
            for b, c in (('a', 'b'), ('b', 'a')):
                y = x.get(b)
                while isinstance(y, dict) and y.get('k') in ('void', 'cast', 'tobool'):
                    y = y['e']
                if isinstance(y, dict) and y.get('k') == 'call' and tu.fns[y['c']].q == '__assert_fail':
                    yield x
                    return
        for v in x.values():
            yield from asserts(tu, v)
    elif isinstance(x, list):
        for v in x:
            yield from asserts(tu, v)


def c81(ctx):
    ctx.rule('Effect analysis of every assertion in the repository, with calls followed: the condition of an assertion writes nothing, calls no '
             'function that changes anything, allocates and releases nothing. So leaving it out (NDEBUG) changes no result.')
    n = 0
    ef = Effects(ctx.prog)
    for f in ctx.prog.bodies(export.REPO):
        ctx.functions[f.key] = '%s (%s)' % (f.q, strip(f.where))
        ctx.exits += 1
        for a in asserts(f.tu, f.body['b']):
            n += 1
            r = ef.of(f.tu, a['c'])
            at = '%s:%s' % (strip(f.tu.files[f.body['file']]), a.get('l', f.body['l']))
            ctx.site(at)
            ctx.ob('assertions have no effects', at, r is None, 'the assertion in %s does %s' % (f.q, r))
        ctx.ob('every assertion was examined', strip(f.where), True)


# ------------------------------------------------------------------------------------------------------------- messages
WIRE = {
    'Gid': [('octet', ('array', 16), 'data')],
    'NodeEntitiesInfo': [(('string', 256), None, 'node_namespace'), (('string', 256), None, 'node_name'),
                         (('msg', 'Gid'), ('seq', None), 'reader_gid_seq'), (('msg', 'Gid'), ('seq', None), 'writer_gid_seq')],
    'ParticipantEntitiesInfo': [(('msg', 'Gid'), None, 'gid'), (('msg', 'NodeEntitiesInfo'), ('seq', None), 'node_entities_info_seq')],
}
LINE = re.compile(r'^(?P<pkg>\w+/)?(?P<type>\w+)(?P<bound><=\d+)?(?P<arr>\[(?:<=)?\d*\])?\s+(?P<name>[a-z]\w*)(?P<dflt>\s+\S.*)?$')


def fields(path):
    out = []
    for raw in open(path):
        s = raw.split('#', 1)[0].strip()
        if not s or re.match(r'^\w+(<=\d+)?\s+[A-Z][A-Z0-9_]*\s*=', s):
            continue
        m = LINE.match(s)
        if not m:
            raise Inconclusive('%s: cannot read %r' % (strip(path), s))
        t = m['type']
        if t in ('char', 'uint8', 'byte', 'octet'):
            t = 'octet'
        elif t == 'string':
            t = ('string', int(m['bound'][2:]) if m['bound'] else None)
        elif t[0].isupper():
            if m['pkg'] and m['pkg'] != 'rmw_dds_common/':
                t = ('msg', m['pkg'] + t)
            else:
                t = ('msg', t)
        a = m['arr']
        if a:
            n = re.sub(r'\D', '', a)
            a = ('seq', int(n) if n else None) if '<=' in a or not n else ('array', int(n))
        out.append((t, a, m['name']))
    return out


def c82(ctx):
    ctx.rule('The definitions of the three discovery messages are read and resolved to their serialized layout (order, type, bounds and array '
             'kind of each field; comments, constants and spelling of types do not matter) and compared with the layout every release has used.')
    d = os.path.join(export.REPO, 'rmw_dds_common', 'msg')
    for name, want in WIRE.items():
        p = os.path.join(d, name + '.msg')
        w = 'rmw_dds_common/msg/%s.msg' % name
        if not os.path.exists(p):
            raise Inconclusive('anchor not found: %s' % w)
        got = fields(p)
        ctx.entries.append(w)
        ctx.functions[name] = w
        ctx.ob('same number of fields', w, len(got) == len(want), '%d fields instead of %d' % (len(got), len(want)))
        for i, x in enumerate(want):
            g = got[i] if i < len(got) else None
            ctx.ob('each field serializes as before', w, g is not None and g[:2] == x[:2], 'field %d is %s instead of %s' % (i + 1, g, x))
            ctx.ob('each field keeps its name and place', w, g is not None and g[2] == x[2], 'field %d is %s instead of %s' % (i + 1, g, x))
    ctx.exits += len(WIRE)


RULES = {'C80': (c80, ALL), 'C81': (c81, ALL), 'C82': (c82, ['gid_utils'])}
