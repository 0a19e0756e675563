"""The graph cache (C10-C29)."""
import itertools
import random
import re

import models
from core import Inconclusive, where, loc
from engine import I, NULL
from concrete import Undefined, OutOfBounds
from cache import (mined, encoded, Play, Misuse, FMap, gmap, norm, copyv, zero_sa, OK, ERROR, BAD_ALLOC, INVALID, VALIDATES, RELEASES, CANFAIL, ALLOCATES)

GC = 'rmw_dds_common::GraphCache::'
NO_NODE = 203
W, R, P, CB = 'data_writers_', 'data_readers_', 'participants_', 'on_change_callback_'
THIS = ('this',)


# ---------------------------------------------------------------- small graphs
def gid(x):
    return {'data': x}


def node(n, ns, r=(), w=()):
    return {'node_name': n, 'node_namespace': ns, 'reader_gid_seq': [gid(x) for x in r], 'writer_gid_seq': [gid(x) for x in w]}


def ent(t, ty, h, pg, q):
    return {'topic_name': t, 'topic_type': ty, 'topic_type_hash': ('tok', h), 'participant_gid': gid(pg), 'qos': ('tok', q)}


def part(e, nodes=()):
    return {'enclave': e, 'node_entities_info_seq': list(nodes)}


def cache(parts=(), w=(), r=(), cb=1):
    return {P: gmap(parts), W: gmap(w), R: gmap(r), CB: ('tok', 'callback') if cb else 0}


A, B, A2, B2 = ('a', '/'), ('b', '/x'), ('a', '/x'), ('b', '/')


def node_lists(deep):
    n = node
    out = [
        [],
        [n(*A)],
        [n(*A, r=[1], w=[2])],
        [n(*A2, r=[2], w=[1]), n(*A, r=[1, 2], w=[2, 1])],
        [n(*A, r=[1], w=[3]), n(*B, r=[2, 3, 2], w=[1, 4])],
        [n(*B2), n(*A, r=[3, 1], w=[4, 2]), n(*B, w=[1])],
        [n(*A, r=[1], w=[2]), n(*A, r=[2], w=[1])],
        [n(*A, r=[1, 1, 2], w=[2, 2, 1]), n(*B2, r=[1], w=[2])],
    ]
    if deep:
        names = [A, B, A2]
        seqs = [(), (1,), (2, 1)]
        for k in (1, 2):
            for nn in itertools.product(names, repeat=k):
                for rr in itertools.product(seqs, repeat=k):
                    for ww in itertools.product(seqs, repeat=k):
                        out.append([n(*nn[i], r=rr[i], w=ww[i]) for i in range(k)])
    return out


ENT_W = {1: ent('rt/T', 'ty1', 'h1', 10, 'q1'), 2: ent('rt/U', 'ty2', 'h2', 20, 'q2')}
ENT_R = {1: ent('rt/T', 'ty3', 'h3', 20, 'q3'), 3: ent('rt/T', 'ty1', 'h1', 10, 'q1')}


def part_caches(deep):
    """Caches that differ in participants and nodes."""
    for ns in node_lists(deep):
        yield cache({10: part('e1', ns)}, ENT_W, ENT_R)
    some = node_lists(False)
    for i in (0, 2, 4, 6):
        for j in (1, 3, 7):
            yield cache({10: part('e1', some[i]), 20: part('e2', some[j])}, ENT_W, ENT_R)
    yield cache({10: part('e1', some[3]), 20: part('', some[3]), 30: part('e3', some[4])}, {}, {})
    yield cache({}, ENT_W, ENT_R)
    same = {k: ent('rt/T', 'ty', 'h', k, 'q') for k in (1, 5, 10, 20)}
    yield cache({10: part('e1', some[4]), 20: part('e2', some[3])}, same, same)
    yield cache({20: part('e2', some[4])}, {}, {}, cb=0)
    yield cache({10: part('e1', some[4])}, {}, {}, cb=0)


def end_caches(deep):
    """Caches that differ in endpoints."""
    ps = {10: part('e1', [node(*A, r=[1], w=[2])]), 20: part('e2', [node(*B, r=[3], w=[1])])}
    for ks in ((), (1,), (1, 2), (2, 3), (1, 2, 3)):
        for js in ((), (1,), (2, 3)):
            for c in (0, 1):
                yield cache(ps if len(ks) < 3 else {k: part('e%d' % k, [node(*A, r=[k], w=[k])]) for k in (1, 2, 9)}, {k: ent('t%d' % k, 'ty%d' % k, 'h%d' % k, 10 * k, 'q%d' % k) for k in ks},
                            {k: ent('s%d' % k, 'uy%d' % k, 'i%d' % k, 10 * k, 'p%d' % k) for k in js}, c)


# ------------------------------------------------------------- specifications
ZERO = ('tok', 'zero hash')


def endpoint(m, g, rec):
    """(changed graph, result, notified)"""
    def go(c, a):
        c = copyv(c)
        k = ('g', a[g]['data'])
        if k in c[m]:
            return c, 0, 0
        c[m][k] = rec(a)
        return c, 1, 1
    return go


def record(a):
    return {'topic_name': a['topic'], 'topic_type': a['type'], 'topic_type_hash': a.get('hash', ZERO), 'participant_gid': a['pgid'],
            'qos': a['qos']}


def by_reader(f):
    return lambda c, a: f(R if a['is_reader'] else W)(c, a)


def add_to(m):
    return endpoint(m, 'gid', record)


def drop_from(m, g='gid'):
    def go(c, a):
        c = copyv(c)
        hit = c[m].pop(('g', a[g]['data']), None) is not None
        return c, int(hit), int(hit)
    return go


def upsert(f):
    def go(c, a):
        c = copyv(c)
        k = ('g', (a['pgid'] if 'pgid' in a else a['msg']['gid'])['data'])
        if k not in c[P]:
            c[P][k] = part('')
        f(c[P][k], a)
        return c, None, 1
    return go


def set_enclave(p, a):
    p['enclave'] = a['enclave']


def set_nodes(p, a):
    p['node_entities_info_seq'] = copyv(a['msg']['node_entities_info_seq'])


def on_nodes(f):
    """Update of one participant's node list; None if a precondition fails."""
    def go(c, a):
        c = copyv(c)
        k = ('g', a['pgid']['data'])
        if k not in c[P]:
            return None
        seq = c[P][k]['node_entities_info_seq']
        if f(seq, a) is False:
            return None
        return c, {'gid': gid(a['pgid']['data']), 'node_entities_info_seq': copyv(seq)}, 1
    return go


def first(seq, a):
    for i, n in enumerate(seq):
        if n['node_name'] == a['name'] and n['node_namespace'] == a['ns']:
            return i
    return None


def f_add_node(seq, a):
    seq.append(node(a['name'], a['ns']))


def f_remove_node(seq, a):
    i = first(seq, a)
    if i is None:
        return False
    del seq[i]


def f_assoc(field, add):
    def go(seq, a):
        i = first(seq, a)
        if i is None:
            return False
        s = seq[i][field]
        g = gid(a['gid']['data'])
        if add:
            s.append(g)
        elif g in s:
            s.remove(g)
    return go


ENDS = ['gid', 'topic', 'type', 'hash', 'pgid', 'qos']
ENDS5 = ['gid', 'topic', 'type', 'pgid', 'qos']
NODE = ['pgid', 'name', 'ns']
ASSOC = ['gid', 'pgid', 'name', 'ns']
MUT = {
    ('add_writer', 6): (ENDS, add_to(W)), ('add_writer', 5): (ENDS5, add_to(W)),
    ('add_reader', 6): (ENDS, add_to(R)), ('add_reader', 5): (ENDS5, add_to(R)),
    ('add_entity', 7): (ENDS + ['is_reader'], by_reader(add_to)), ('add_entity', 6): (ENDS5 + ['is_reader'], by_reader(add_to)),
    ('remove_writer', 1): (['gid'], drop_from(W)), ('remove_reader', 1): (['gid'], drop_from(R)),
    ('remove_entity', 2): (['gid', 'is_reader'], by_reader(drop_from)),
    ('add_participant', 2): (['pgid', 'enclave'], upsert(set_enclave)),
    ('update_participant_entities', 1): (['msg'], upsert(set_nodes)),
    ('remove_participant', 1): (['pgid'], drop_from(P, 'pgid')),
    ('add_node', 3): (NODE, on_nodes(f_add_node)), ('remove_node', 3): (NODE, on_nodes(f_remove_node)),
    ('associate_writer', 4): (ASSOC, on_nodes(f_assoc('writer_gid_seq', True))),
    ('associate_reader', 4): (ASSOC, on_nodes(f_assoc('reader_gid_seq', True))),
    ('dissociate_writer', 4): (ASSOC, on_nodes(f_assoc('writer_gid_seq', False))),
    ('dissociate_reader', 4): (ASSOC, on_nodes(f_assoc('reader_gid_seq', False))),
}
ENDPOINTS = [k for k in MUT if k[0].split('_')[1] in ('writer', 'reader', 'entity') and 'ociate' not in k[0]]
PARTS = [('add_participant', 2), ('update_participant_entities', 1), ('remove_participant', 1)]
NODES = [('add_node', 3), ('remove_node', 3)]
ASSOCS = [k for k in MUT if 'ociate' in k[0]]


def arguments(names, deep):
    """Choices for the named arguments."""
    dom = {
        'gid': [gid(x) for x in (1, 2, 3, 9)],
        'pgid': [gid(x) for x in (10, 20, 5)],
        'topic': ['rt/T'], 'type': ['ty'], 'hash': [('tok', 'h')], 'qos': [('tok', 'q')],
        'is_reader': [0, 1], 'enclave': ['e1', 'new'],
        'name': ['a', 'b', 'z'], 'ns': ['/', '/x'],
        'msg': [{'gid': gid(g), 'node_entities_info_seq': ns} for g in (10, 20, 5)
                for ns in (node_lists(deep)[:60] if deep else node_lists(False)[:5])],
    }
    if 'topic' in names:
        dom['gid'] = [gid(x) for x in (1, 2, 4)]
        dom['pgid'] = [gid(x) for x in (10, 5)]
    for v in itertools.product(*[dom[n] for n in names]):
        yield dict(zip(names, v))


# ------------------------------------------------------------------- summaries
def observed(root):
    return root[0] in ('m', 'this')


class Method:
    def __init__(self, ctx, name, names, n=None):
        self.ctx, self.name = ctx, name
        fn = self.fn = ctx.one(GC + name, len(names) if n is None else n)
        self.w = where(fn)
        self.names = names
        eng = self.eng = ctx.engine(log_mut=True, havoc_ptr=True, observed=observed,
                                    ignore_fn=lambda f: f.q.startswith('rcutils_set_error') or f.q.startswith('rcutils_reset_error'))
        self.outs = ctx.run(eng, fn, eng.entry_args(fn, names))
        ctx.site('%s: %d exits' % (fn.q, len(self.outs)))
        self.played = 0

    def play(self, c, a, outcome=lambda key: None, setup=None):
        """(play, kind, result, graph afterwards); None if no exit applies."""
        pl = Play(self.eng, self.outs, c, dict(a), outcome, setup)
        try:
            r = pl.run()
        except OutOfBounds as ex:
            raise Misuse('inside the containers', str(ex))
        except (TypeError, KeyError, IndexError, AttributeError, ValueError) as ex:
            raise Undefined('%s: %s' % (type(ex).__name__, ex))
        self.played += 1
        if r is None:
            return None
        return (pl,) + r


def show(x):
    """Short rendering of a graph value."""
    if isinstance(x, FMap):
        return '{%s}' % ', '.join('%s: %s' % (k[1] if isinstance(k, tuple) else k, show(v)) for k, v in sorted(x.items()))
    if isinstance(x, dict):
        if set(x) == {'data'}:
            return 'gid %s' % (x['data'],)
        if 'node_name' in x and 'reader_gid_seq' in x:
            return '%s%s%s r%s w%s' % (x['node_namespace'], '' if str(x['node_namespace']).endswith('/') else '/', x['node_name'],
                                       [g['data'] for g in x['reader_gid_seq']], [g['data'] for g in x['writer_gid_seq']])
        return '{%s}' % ', '.join('%s: %s' % (k, show(v)) for k, v in x.items())
    if isinstance(x, list):
        return '[%s]' % ', '.join(show(v) for v in x)
    if isinstance(x, tuple) and x and x[0] == 'tok':
        return str(x[1])
    return repr(x)


def mutations(ctx, keys, judge, aspect, caches, need=True):
    """Every call of the given methods on every small graph; judge(case) -> [(rule, ok, detail)].

    A case is (key, c, a, want, play, result, after)."""
    for key in keys:
        name, n = key
        names, spec = MUT[key]
        m = Method(ctx, name, names)
        total, bad = {}, {}
        cases = itertools.chain(((c, a) for c in caches(ctx.thorough) for a in arguments(names, ctx.thorough)), shaped(m, names, True))
        for c, a in encoded(cases):
            want = spec(c, a)
            if want is None:
                continue            # precondition: asserted by the code
            try:
                got = m.play(c, a)
                if got is None:
                    res = [('every call on a valid graph returns', False, 'no exit of the function applies')]
                else:
                    res = judge((key, c, a, want) + (got[0], got[2], got[3]))
            except Misuse as ex:
                res = [(ex.rule, False, ex.text)]
            for rule, ok, text in res:
                total[rule] = total.get(rule, 0) + 1
                if not ok and rule not in bad:
                    bad[rule] = '%s: %s, on participants %s writers %s readers %s with %s' % (
                        name, text, show(c[P]), show(c[W]), show(c[R]), show(a))
        for rule in total:
            ctx.ob(rule, m.w, rule not in bad, bad.get(rule, '%d cases' % total[rule]), key='%s|%s/%d' % (rule, name, n))
        if not total:
            raise Inconclusive('%s: no case applies' % name)


def keys_of(m):
    return sorted(m)


def c13(ctx):
    ctx.rule('The summary of every add/remove endpoint method agrees with the specification of a keyed set on all small graphs and arguments: '
             'result true exactly if the key set of the selected map changed, the key set changed by exactly the given gid, and an existing '
             'record is never replaced.')

    def judge(case):
        key, c, a, want, pl, res, new = case
        out = [('reports whether it changed something', res in (0, 1) and int(res) == want[1], 'returns %s, expected %s' % (res, want[1]))]
        for m in (W, R):
            out.append(('adds or removes exactly the given gid', keys_of(new[m]) == keys_of(want[0][m]),
                        '%s has keys %s, expected %s' % (m, [k[1] for k in keys_of(new[m])], [k[1] for k in keys_of(want[0][m])])))
            same = all(norm(new[m][k]) == norm(v) for k, v in c[m].items() if k in new[m])
            out.append(('known endpoints are not overwritten', same, 'a record of %s that was there before changed' % m))
        return out
    mutations(ctx, ENDPOINTS, judge, 'endpoints', end_caches)


def c14(ctx):
    ctx.rule('On all small graphs and arguments an endpoint method for readers leaves the writers and the participants as they were and vice '
             'versa; the generic methods select by is_reader.')

    def judge(case):
        key, c, a, want, pl, res, new = case
        name = key[0]
        reader = a.get('is_reader', int(name.endswith('reader')))
        other = W if reader else R
        out = [('the other kind of endpoint is untouched', norm(new[other]) == norm(c[other]), '%s changes' % other),
               ('participants are untouched by endpoint discovery', norm(new[P]) == norm(c[P]), 'participants change')]
        if want[2]:
            mine = R if reader else W
            out.append(('the selected kind is updated', keys_of(new[mine]) == keys_of(want[0][mine]), '%s is not updated' % mine))
        return out
    mutations(ctx, ENDPOINTS, judge, 'separation', end_caches)


def c15(ctx):
    ctx.rule('After an endpoint was added its record holds exactly the topic name, type name, type hash (all zero for the deprecated forms), '
             'participant gid and QoS that were passed, on all small graphs.')

    def judge(case):
        key, c, a, want, pl, res, new = case
        if not want[2] or 'topic' not in a:
            return []
        m = R if a.get('is_reader', int(key[0].endswith('reader'))) else W
        k = ('g', a['gid']['data'])
        if k not in new[m]:
            return [('the new endpoint is recorded', False, 'no record for the new gid')]
        out = []
        for f, v in want[0][m][k].items():
            g = new[m][k].get(f)
            out.append(('the record holds what was passed', norm(g) == norm(v), '%s is recorded as %s, expected %s' % (f, show(g), show(v))))
        return out
    mutations(ctx, [k for k in ENDPOINTS if k[0].startswith('add')], judge, 'fidelity', end_caches)


def state_rule(rule):
    def judge(case):
        key, c, a, want, pl, res, new = case
        out = [(rule, norm(new[P]) == norm(want[0][P]), 'participants become %s, expected %s' % (show(new[P]), show(want[0][P])))]
        out.append(('endpoints are untouched', norm(new[W]) == norm(c[W]) and norm(new[R]) == norm(c[R]), 'discovered endpoints change'))
        return out
    return judge


def c16(ctx):
    ctx.rule('The summaries of add_participant, update_participant_entities and remove_participant agree on all small graphs and arguments with: '
             'set the enclave and keep the nodes; replace the node list and keep the enclave; drop the participant; all others unchanged.')
    mutations(ctx, PARTS, state_rule('only the stated part of the stated participant changes'), 'participants', part_caches)


def c17(ctx):
    ctx.rule('The summaries of add_node and remove_node agree on all small graphs and arguments with: append one node without endpoints; erase the '
             'first node with that name and namespace; everything else and the order unchanged.')
    mutations(ctx, NODES, state_rule('exactly one node is added or removed'), 'nodes', part_caches)


def c18(ctx):
    ctx.rule('The summaries of the four (dis)associate methods agree on all small graphs and arguments with: append the gid to (erase its first '
             'occurrence from) the reader or writer list of the first node with that name and namespace; everything else unchanged.')
    mutations(ctx, ASSOCS, state_rule('exactly one endpoint of the stated node changes'), 'endpoints of nodes', part_caches)


def c19(ctx):
    ctx.rule('On all small graphs and arguments the message returned by a local update carries the gid of the participant and the node list the '
             'participant has after the update.')

    def judge(case):
        key, c, a, want, pl, res, new = case
        k = ('g', a['pgid']['data'])
        if not isinstance(res, dict):
            return [('the message is returned', False, 'no message is returned')]
        now = new[P][k]['node_entities_info_seq'] if k in new[P] else None
        return [('the message names the participant', norm(res.get('gid')) == norm(gid(a['pgid']['data'])), 'the gid is %s' % show(res.get('gid'))),
                ('the message is the node list after the update', norm(res.get('node_entities_info_seq')) == norm(now),
                 'the message says %s, the graph says %s' % (show(res.get('node_entities_info_seq')), show(now)))]
    mutations(ctx, NODES + ASSOCS, judge, 'messages', part_caches)


CBTERM = ('fld', ('sym', 'this'), CB)


def c12(ctx):
    ctx.rule('On all small graphs and arguments, with and without a callback: a mutator invokes the change callback exactly once if it changed the '
             'graph (participant, node and association updates always, the others as reported by their result), never otherwise and never when '
             'none is set; the invocation comes after the last write to the graph and inside the ownership period of the mutex.')

    def judge(case):
        key, c, a, want, pl, res, new = case
        cbs = [i for i, e in enumerate(pl.log) if e[0] == 'cb']
        n = want[2] if c[CB] != 0 else 0
        out = []
        if c[CB] == 0 and cbs:
            return [('no call without a callback', False, 'the empty callback is invoked')]
        out.append(('notified exactly when the graph changed', len(cbs) == n,
                    'the change callback is invoked %d times, expected %d' % (len(cbs), n)))
        for i in cbs:
            late = [e for e in pl.log[i:] if e[0] == 'mut' and e[1] and e[1][0] in ((('f', x)) for x in (P, W, R))]
            out.append(('notified after the change', not late, 'the graph is still changed after the callback was invoked%s' % (
                ' (%s)' % loc(late[0][-1]) if late else '')))
            held = sum(1 if e[0] == 'lock' else -1 if e[0] == 'unlock' else 0 for e in pl.log[:i])
            out.append(('notified under the lock', held > 0, 'the callback is invoked without the mutex'))
        return out
    mutations(ctx, [k for k in MUT if k in ENDPOINTS], judge, 'notification', end_caches)
    mutations(ctx, [k for k in MUT if k not in ENDPOINTS], judge, 'notification', part_caches)


# ---------------------------------------------------------------------- queries
def dt(x):
    """Two raw names demangle to one name; others to nothing."""
    return x[3:] if x[:3] in ('rt/', 'rq/') else ''


def dy(x):
    return 'pkg/' + x.rstrip('_')


def query_caches(deep, few=False):
    n = node
    P0 = [
        {},
        {10: part('e1')},
        {10: part('e1', [n(*A, r=[1, 3], w=[2])]), 20: part('e2', [n(*B, r=[2], w=[1, 9])])},
        {10: part('e1', [n(*A2, w=[3, 1]), n(*A, r=[3, 1], w=[2, 1, 2]), n(*B2, r=[2])]), 20: part(''), 30: part('e3', [n(*B, w=[4])])},
        {10: part('e1', [n(*B2), n(*A)]), 20: part('e2', [n(*A, r=[1, 2, 3], w=[4, 3, 2, 1])])},
        {10: part('e1', [n(*A, r=[1], w=[1]), n(*A, r=[2], w=[2])]), 20: part('e1', [n(*B, r=[2, 1], w=[3])])},
    ]
    e = ent
    E0 = [
        {},
        {1: e('rt/T', 'ty1', 'h1', 10, 'q1')},
        {1: e('rt/T', 'ty1', 'h1', 10, 'q1'), 2: e('rq/T', 'ty2', 'h2', 20, 'q2'), 3: e('zz', 'ty1', 'h3', 10, 'q3')},
        {1: e('rt/T', 'ty1', 'h1', 20, 'q1'), 2: e('rt/T', 'ty1_', 'h2', 10, 'q2'), 3: e('rt/U', 'ty2', 'h1', 10, 'q1'), 4: e('rt/T', 'ty3', 'h4', 99, 'q4')},
        {2: e('rt/U', 'ty2', 'h2', 10, 'q2'), 3: e('', 'ty1', 'h2', 10, 'q2'), 4: e('rt/T', 'ty2', 'h4', 30, 'q4')},
    ]
    if few:
        if not deep:
            P0, E0 = P0[2:4], [E0[0], E0[1], E0[2], E0[3]]
            for p, w, r in ((0, 1, 3), (1, 3, 2), (0, 0, 0), (1, 0, 1), (0, 3, 0)):
                yield cache(P0[p], E0[w], E0[r])
            return
    for p in P0:
        for i, w in enumerate(E0):
            for j, r in enumerate(E0):
                if deep or (i + 2 * j + len(p)) % 3 == 0:
                    yield cache(p, w, r)


def out_sa(h, p):
    s = h.get(p)
    if s['data'] == 0:
        if s['size']:
            raise Misuse('the result is complete', 'the result has %s entries but no array' % s['size'])
        return []
    arr = h.get(s['data'])
    if len(arr) != s['size']:
        raise Misuse('the result is complete', 'the array has %d entries, its size says %s' % (len(arr), s['size']))
    out = []
    for x in arr:
        if x == 0:
            raise Misuse('the result is complete', 'an entry of the result is left empty')
        out.append(h.get(x))
    return out


def own_strings(h, ps):
    """Every string of the result is a block of its own."""
    seen = [p[1] for p in ps if isinstance(p, tuple)]
    if len(set(seen)) != len(seen):
        raise Misuse('the result is complete', 'two entries of the result share one string')


def read_nt(h, p):
    v = h.get(p)
    names = out_sa(h, p[:2] + (p[2] + ('names',),))
    out = []
    if names:
        types = h.get(v['types']) if v['types'] != 0 else []
        if len(types) != len(names):
            raise Misuse('the result is complete', '%d names but %d lists of types' % (len(names), len(types)))
        for i, nme in enumerate(names):
            ts = types[i]
            arr = h.get(ts['data']) if ts['data'] != 0 else []
            if len(arr) != ts['size'] or 0 in arr:
                raise Misuse('the result is complete', 'the type list of %s has empty entries' % nme)
            out.append((nme, tuple(sorted(h.get(x) for x in arr))))
    return sorted(out)


def read_ei(h, p):
    v = h.get(p)
    arr = h.get(v['info_array']) if v['info_array'] != 0 else []
    if len(arr) != v['size']:
        raise Misuse('the result is complete', 'the array has %d entries, its size says %s' % (len(arr), v['size']))
    out = []
    for x in arr:
        d = dict(x)
        for f in ('node_name', 'node_namespace', 'topic_type'):
            if d[f] == 0:
                raise Misuse('the result is complete', '%s of an endpoint is left empty' % f)
            d[f] = h.get(d[f])
        out.append(d)
    return out


UNKNOWN = ('_NODE_NAME_UNKNOWN_', '_NODE_NAMESPACE_UNKNOWN_')
BARE = ('_CREATED_BY_BARE_DDS_APP_', '_CREATED_BY_BARE_DDS_APP_')


def creators(c, g, rec, reader):
    k = ('g', rec['participant_gid']['data'])
    if k not in c[P]:
        return [BARE]
    f = 'reader_gid_seq' if reader else 'writer_gid_seq'
    hit = [(n['node_name'], n['node_namespace']) for n in c[P][k]['node_entities_info_seq'] if gid(g) in n[f]]
    return hit or [UNKNOWN]


def endpoints_of(c, topic, reader):
    """[(gid, record, possible (name, namespace))]"""
    return [(k[1], r, creators(c, k[1], r, reader)) for k, r in c[R if reader else W].items() if r['topic_name'] == topic]


def names_types(recs):
    out = {}
    for r in recs:
        t = dt(r['topic_name'])
        if t:
            out.setdefault(t, set()).add(dy(r['topic_type']))
    return sorted((t, tuple(sorted(s))) for t, s in out.items())


def shaped_caches(strs, nums):
    """Graphs built from constants the code compares with: texts in every place of a text, sizes just above a number."""
    out = []
    for x in sorted(strs):
        for y in [x] if len(x) > 1 or x in PLAIN else [x + 'q', 'q' + x]:
            raw = 'rt/' + y
            out.append((y, raw, cache({10: part(y, [node('a', '/', r=[1], w=[2]), node(y, '/', r=[2], w=[1]), node('a', y, r=[3], w=[3]), node('b', '/')]), 20: part('e', [node(y, y)])},
                                      {1: ent(raw, y, 'h1', 10, 'q1'), 2: ent('rt/T', 'ty', 'h2', 10, 'q2'), 3: ent(y, 'ty', 'h3', 20, 'q3')},
                                      {1: ent('rt/T', y, 'h1', 10, 'q1'), 2: ent(raw, 'ty', 'h2', 20, 'q2'), 3: ent(raw, y, 'h3', 10, 'q3')})))
    for n in sorted(nums):
        m = n + 1
        long = 'n' * m
        es = {1000 + i: ent('rt/T', 'ty%d' % i, 'h', 10, 'q') for i in range(m)}
        ts = {1000 + i: ent('rt/T%d' % i, 'ty', 'h', 10, 'q') for i in range(m)}
        last = 1000 + m - 1
        ls = {1: ent('rt/' + long, long, 'h', 10, 'q')}
        out.append((long, 'rt/' + long, cache({10: part(long, [node(long, '/', r=[1], w=[1]), node('a', long), node('b', '/')])}, ls, ls)))
        out.append((long[:-1], 'rt/' + long[:-1], cache({10: part(long[:-1], [node(long, '/'), node(long[:-1], '/', r=[1], w=[1]), node('b', '/')])}, ls, ls)))
        out.append(('a', 'rt/T', cache({10: part('e', [node('k%d' % i, '/') for i in range(m)] + [node('a', '/', r=[last, 1000], w=[last, 1001])])}, es, es)))
        out.append(('k%d' % (m - 1), 'rt/T1', cache({10: part('e', [node('k%d' % (m - 1), '/', r=sorted(ts), w=sorted(ts))])}, ts, ts)))
        out.append(('a', 'rt/T', cache(dict([(i, part("e", [node("k%d" % i, "/")])) for i in range(m)] + [(last, part('', [node("a", "/", r=[last], w=[last])]))]), es, es)))
    return out


def shaped(m, names, mutator):
    """Further (graph, arguments) for the constants in one summary."""
    strs, nums = mined(m.eng, m.outs)
    strs = {x for x in strs if x not in BASELINE} | set(PLAIN)
    for y, raw, c in shaped_caches(strs, nums):
        dom = {'name': [y, 'a'], 'ns': ['/', y], 'topic': [raw, 'rt/T', y], 'pgid': [gid(10), gid(20)], 'gid': [gid(1), gid(2), gid(9), gid(1001)],
               'type': ['ty', y], 'hash': [('tok', 'h')], 'qos': [('tok', 'q')], 'is_reader': [0, 1], 'enclave': ['new', y],
               'msg': [{'gid': gid(10), 'node_entities_info_seq': v['node_entities_info_seq']} for v in c[P].values()][:4]}
        ks = [k for k in names if k in dom]
        for v in itertools.product(*[dom[k] for k in ks]):
            yield c, dict(zip(ks, v))
    for c, a in sampled(3000 if m.ctx.thorough else 150, len(names)):
        yield c, {k: v for k, v in a.items() if k in names}


def sampled(n, seed):
    """Pseudo-random graphs over very few texts and gids, with arguments that occur in them (more often than not)."""
    rnd = random.Random(seed)
    some = lambda k, xs: [rnd.choice(xs) for _ in range(rnd.randrange(k + 1))]
    texts = ['', 'a', 'b', '/', '/a', 'rt/a', 'rt/b', 'rt/']
    gids = [1, 2, 3, 10, 20]
    for _ in range(n):
        t = lambda: rnd.choice(texts)
        e = lambda: {g: ent(rnd.choice(texts[-4:]), t(), rnd.choice('hi'), rnd.choice(gids), rnd.choice('pq')) for g in some(4, gids)}
        ps = {g: part(t(), [node(rnd.choice(['a', 'b', '']), rnd.choice(['/', '/a', 'a']), r=some(3, gids), w=some(3, gids)) for _ in range(rnd.randrange(4))])
              for g in some(3, gids)}
        c = cache(ps, e(), e(), cb=rnd.randrange(3))
        nodes = [n for v in c[P].values() for n in v['node_entities_info_seq']]
        for _ in range(4):
            x = rnd.choice(nodes) if nodes and rnd.randrange(4) else node(t(), t())
            owners = [k[1] for k, v in c[P].items() if x in v['node_entities_info_seq']] or gids
            yield c, {'name': x['node_name'], 'ns': x['node_namespace'], 'topic': rnd.choice(texts[-4:]), 'type': t(), 'hash': ('tok', 'i'), 'qos': ('tok', 'p'),
                      'pgid': gid(rnd.choice(owners)), 'gid': gid(rnd.choice(gids)), 'is_reader': rnd.randrange(2), 'enclave': t(),
                      'msg': {'gid': gid(rnd.choice(gids)), 'node_entities_info_seq': copyv(rnd.sample(nodes, rnd.randrange(len(nodes) + 1)))}}


PLAIN = ('', 'a')      # always: empty texts, and the same text in different roles
BASELINE = ('', UNKNOWN[0], UNKNOWN[1], BARE[0])


class Query:
    """A query, its setup on the heap and how to read its result."""

    def __init__(self, ctx, name, names):
        self.m = Method(ctx, name, names)
        self.name, self.names, self.w = name, names, self.m.w

    def run(self, c, a, outcome=lambda key: None, nulls=()):
        def setup(h, p):
            if 'alloc' in self.names:
                p['alloc'] = h.obj('alloc', h.allocator)
            for n in ('nn', 'nns', 'en'):
                if n in self.names:
                    p[n] = h.obj(n, zero_sa())
            if 'nt' in self.names:
                p['nt'] = h.obj('nt', {'names': zero_sa(), 'types': 0})
            if 'ei' in self.names:
                p['ei'] = h.obj('ei', {'size': 0, 'info_array': 0})
            if 'count' in self.names:
                p['count'] = h.obj('count', -1)
            for n in nulls:
                p[n] = 0
        b = dict(a)
        b.setdefault('dt', dt)
        b.setdefault('dy', dy)
        r = self.m.play(c, b, outcome, setup)
        if r is None:
            raise Misuse('every call returns', 'no exit of the function applies')
        pl, kind, res, new = r
        return pl, res, pl.ev.params


NN = ('get_node_names', ['nn', 'nns', 'en', 'alloc'])
NT = ('get_names_and_types', ['dt', 'dy', 'alloc', 'nt'])
BW = ('get_writer_names_and_types_by_node', ['name', 'ns', 'dt', 'dy', 'alloc', 'nt'])
BR = ('get_reader_names_and_types_by_node', ['name', 'ns', 'dt', 'dy', 'alloc', 'nt'])
IW = ('get_writers_info_by_topic', ['topic', 'dy', 'alloc', 'ei'])
IR = ('get_readers_info_by_topic', ['topic', 'dy', 'alloc', 'ei'])
QDOM = {'name': ['a', 'b', 'z'], 'ns': ['/', '/x'], 'topic': ['rt/T', 'rt/U', 'nope', '']}


def qargs(names, nulls=False):
    ks = [n for n in names if n in QDOM]
    for v in itertools.product(*[QDOM[k] for k in ks]):
        a = dict(zip(ks, v))
        yield a, ()
        if nulls and 'en' in names:
            yield a, ('en',)


def queries(ctx, qs, judge, few=False, nulls=False):
    """judge(query, c, a, nulls, heap, params, result) -> [(rule, ok, detail)] for every successful call."""
    for name, names in qs:
        q = Query(ctx, name, names)
        total, bad = {}, {}
        cases = [(c, a, nl) for c in query_caches(ctx.thorough, few) for a, nl in qargs(names, nulls)]
        extra = [(c, a, ()) for c, a in shaped(q.m, names, False)]
        if few:
            extra = extra[::7][:600 if ctx.thorough else 20]
        for c, a, nl in encoded(cases + extra):
            try:
                res = judge(q, c, a, nl)
            except Misuse as ex:
                res = [(ex.rule, False, ex.text)]
            except OutOfBounds as ex:
                res = [('inside the containers', False, str(ex))]
            for rule, ok, text in res:
                total[rule] = total.get(rule, 0) + 1
                if not ok and rule not in bad:
                    bad[rule] = '%s: %s, on participants %s writers %s readers %s with %s' % (
                        name, text, show(c[P]), show(c[W]), show(c[R]), show(dict(a, **{x: 'null' for x in nl})))
        for rule in total:
            ctx.ob(rule, q.w, rule not in bad, bad.get(rule, '%d cases' % total[rule]), key='%s|%s' % (rule, name))
        if not total:
            raise Inconclusive('%s: no case applies' % name)


def c21(ctx):
    ctx.rule('On all small graphs get_writer_count and get_reader_count store the number of writers (readers) whose topic name equals the given '
             'one, and get_number_of_nodes returns the total length of the node lists.')
    for name, m in (('get_writer_count', W), ('get_reader_count', R)):
        def judge(q, c, a, nl, m=m):
            pl, res, p = q.run(c, a)
            n = sum(1 for r in c[m].values() if r['topic_name'] == a['topic'])
            got = pl.heap.get(p['count'])
            return [('succeeds', res == OK, 'returns %s' % (res,)), ('counts the endpoints on the topic', got == n, 'counts %s, expected %d' % (got, n))]
        queries(ctx, [(name, ['topic', 'count'])], judge)

    def total(q, c, a, nl):
        pl, res, p = q.run(c, a)
        n = sum(len(v['node_entities_info_seq']) for v in c[P].values())
        return [('counts the nodes', res == n, 'returns %s, expected %d' % (res, n))]
    queries(ctx, [('get_number_of_nodes', [])], total)


def c22(ctx):
    ctx.rule('On all small graphs get_writers_info_by_topic and get_readers_info_by_topic return OK and one entry per endpoint of that kind on '
             'the topic, no more and no fewer, each with that endpoint\'s gid, demangled type, type hash, QoS and kind.')

    def judge(q, c, a, nl):
        pl, res, p = q.run(c, a)
        reader = q.name == IR[0]
        want = endpoints_of(c, a['topic'], reader)
        out = [('succeeds', res == OK, 'returns %s' % (res,))]
        got = read_ei(pl.heap, p['ei'])
        gs = sorted(norm(x['endpoint_gid']) if not isinstance(x['endpoint_gid'], int) else x['endpoint_gid'] for x in got)
        out.append(('one entry per endpoint on the topic', gs == sorted(g for g, _, _ in want),
                    'entries for gids %s, expected %s' % (gs, sorted(g for g, _, _ in want))))
        for x in got:
            for g, r, _ in want:
                if x['endpoint_gid'] == g:
                    exp = {'topic_type': dy(r['topic_type']), 'topic_type_hash': r['topic_type_hash'], 'qos_profile': r['qos'],
                           'endpoint_type': 2 if reader else 1}
                    for f, v in exp.items():
                        out.append(('each entry describes its endpoint', norm(x[f]) == norm(v),
                                    '%s of gid %s is %s, expected %s' % (f, g, show(x[f]), show(v))))
        return out
    queries(ctx, [IW, IR], judge)


def c23(ctx):
    ctx.rule('On all small graphs the node name and namespace reported for an endpoint are those of a node of its participant that lists its gid '
             'among the endpoints of that kind; _NODE_NAME_UNKNOWN_ and _NODE_NAMESPACE_UNKNOWN_ if the participant is known but no node lists '
             'it; _CREATED_BY_BARE_DDS_APP_ if the participant is unknown.')

    def judge(q, c, a, nl):
        pl, res, p = q.run(c, a)
        reader = q.name == IR[0]
        out = []
        got = read_ei(pl.heap, p['ei'])
        for x in got:
            for g, r, cr in endpoints_of(c, a['topic'], reader):
                if x['endpoint_gid'] == g:
                    nm = (x['node_name'], x['node_namespace'])
                    out.append(('the node that created it', nm in cr, 'gid %s is attributed to %s, expected %s' % (g, nm, cr)))
        return out
    queries(ctx, [IW, IR], judge)


def c25(ctx):
    ctx.rule('On all small graphs the by-node queries return NODE_NAME_NON_EXISTENT, and nothing, if no node has that name and namespace, and '
             'otherwise, for one such node, exactly the demangled topics of its writers (readers) that are discovered, each once with its '
             'distinct demangled types.')

    def judge(q, c, a, nl):
        pl, res, p = q.run(c, a)
        m, f = (R, 'reader_gid_seq') if q.name == BR[0] else (W, 'writer_gid_seq')
        nodes = [n for v in c[P].values() for n in v['node_entities_info_seq'] if (n['node_name'], n['node_namespace']) == (a['name'], a['ns'])]
        if not nodes:
            return [('unknown nodes are reported', res == NO_NODE, 'returns %s for an unknown node' % (res,)),
                    ('nothing is returned for unknown nodes', not pl.heap.live, 'memory is allocated for an unknown node')]
        got = read_nt(pl.heap, p['nt'])
        want = [names_types([c[m][('g', g['data'])] for g in n[f] if ('g', g['data']) in c[m]]) for n in nodes]
        return [('succeeds for a known node', res == OK, 'returns %s' % (res,)),
                ('exactly the topics of the node', got in want, 'reports %s, expected %s' % (got, ' or '.join(map(str, want))))]
    queries(ctx, [BW, BR], judge)


def c26(ctx):
    ctx.rule('On all small graphs get_names_and_types returns exactly the demangled topics of all discovered readers and writers whose name '
             'demangles to something, each once with its distinct demangled types.')

    def judge(q, c, a, nl):
        pl, res, p = q.run(c, a)
        got = read_nt(pl.heap, p['nt'])
        want = names_types(list(c[R].values()) + list(c[W].values()))
        return [('succeeds', res == OK, 'returns %s' % (res,)),
                ('exactly the discovered topics and types', got == want, 'reports %s, expected %s' % (got, want))]
    queries(ctx, [NT], judge)


def c27(ctx):
    ctx.rule('On all small graphs get_node_names fills the three arrays with one entry per node, in one common order: name, namespace and the '
             'enclave of its participant; without an enclave array the other two are the same.')

    def judge(q, c, a, nl):
        pl, res, p = q.run(c, a, nulls=nl)
        cols = [out_sa(pl.heap, p[x]) for x in ('nn', 'nns') + (() if nl else ('en',))]
        want = sorted((n['node_name'], n['node_namespace']) + (() if nl else (v['enclave'],))
                      for v in c[P].values() for n in v['node_entities_info_seq'])
        same = len({len(x) for x in cols}) == 1
        got = sorted(zip(*cols)) if same else cols
        return [('succeeds', res == OK, 'returns %s' % (res,)),
                ('the arrays have one entry per node', all(len(x) == len(want) for x in cols), 'lengths %s, expected %d' % ([len(x) for x in cols], len(want))),
                ('the arrays are aligned', same and got == want, 'reports %s, expected %s' % (got, want))]
    queries(ctx, [NN], judge, nulls=True)


# --------------------------------------------------------------------- failures
def left(h, p, names):
    """What the out-parameters still refer to."""
    out = []
    for n in names:
        if n in ('nn', 'nns', 'en', 'nt', 'ei') and p[n] != 0:
            v = h.get(p[n])
            for f, x in list(v.items()) + (list(v['names'].items()) if n == 'nt' else []):
                if isinstance(x, tuple) and x[0] == 'P':
                    out.append('%s.%s' % (n, f))
    return out


def failures(q, c, a, nl):
    """(failing call, code, play or Misuse, result, params) for the success and every single failure, and failures during the clean-up."""
    pl, res, p = q.run(c, a, nulls=nl)
    yield None, 0, pl, res, p
    for key, args, oc in list(pl.heap.trace):
        if key[0] not in CANFAIL:
            continue
        codes = [ERROR] if key[0] in VALIDATES else [BAD_ALLOC] if key[0] == 'rcutils_strdup' else [BAD_ALLOC, ERROR]
        for code in codes:
            try:
                pl1, r1, p1 = q.run(c, a, lambda k: code if k == key else None, nl)
            except (Misuse, OutOfBounds) as ex:
                yield key, code, ex, None, None
                continue
            yield key, code, pl1, r1, p1
            if code != codes[0]:
                continue
            for k2, a2, o2 in list(pl1.heap.trace):
                if k2[0] in RELEASES:
                    try:
                        pl2, r2, p2 = q.run(c, a, lambda k: code if k == key else ERROR if k == k2 else None, nl)
                    except (Misuse, OutOfBounds) as ex:
                        yield key, code, ex, None, None
                        continue
                    yield key, code, pl2, r2, p2


QUERIES = [NN, NT, BW, BR, IW, IR]
MEMORY = ('the caller\'s allocator is used', 'inside the arrays', 'inside the containers', 'no access through a null pointer', 'no use after release',
          'released once', 'all bytes of the gid')


def c24(ctx):
    ctx.rule('On small graphs the effect sequence of every allocating query is followed with each single library call failing in turn (and, on '
             'top, each clean-up call failing): the result is not OK, out of memory is reported as BAD_ALLOC, no block allocated by the query is '
             'left alive and the out-parameters refer to nothing released.')

    def judge(q, c, a, nl):
        out = []
        for key, code, pl, res, p in failures(q, c, a, nl):
            if key is None or key[0] in VALIDATES:
                continue
            t = '%s fails with %s' % (describe(key), code)
            if isinstance(pl, Exception):
                if getattr(pl, 'rule', '') in ('released once', 'no use after release'):
                    out.append((pl.rule, False, '%s when %s' % (pl.text, t)))
                else:
                    out.append(('the failure is handled', False, '%s when %s' % (pl, t)))
                continue
            out.append(('a failure is reported', res not in (OK, None), 'returns %s when %s' % (res, t)))
            if code == BAD_ALLOC:
                out.append(('out of memory is reported as such', res in (OK, BAD_ALLOC), 'returns %s when %s' % (res, t)))
            out.append(('a failure leaks nothing', not pl.heap.live, '%s not released when %s' % (
                ', '.join(sorted(set(map(str, pl.heap.live.values()))))[:160], t)))
            l = left(pl.heap, p, q.names)
            out.append(('a failure leaves the results empty', not l, '%s still set when %s' % (', '.join(l), t)))
        return out
    queries(ctx, QUERIES, judge, few=True, nulls=True)


def describe(key):
    return key[0] + ('' if len(key) == 2 else ' in iteration %s' % '.'.join(str(x) for x in key[2:]))


def c29(ctx):
    ctx.rule('On small graphs, for the success and every single failure of a library call: every allocation and release of a query is given the '
             'caller\'s allocator; every write goes inside an allocated array or a caller\'s object; no null pointer is followed; nothing is '
             'used after or released twice; on success everything allocated is reachable from the out-parameters.')

    def judge(q, c, a, nl):
        out = []
        try:
            runs = list(failures(q, c, a, nl))
        except Misuse as ex:
            return [(ex.rule, False, ex.text)]
        for key, code, pl, res, p in runs:
            t = '' if key is None else ' when %s fails with %s' % (describe(key), code)
            for r in MEMORY:
                out.append((r, True, ''))
            if isinstance(pl, Exception):
                out.append((getattr(pl, 'rule', 'inside the containers'), False, '%s%s' % (pl, t)))
            elif key is None:
                lost = set(pl.heap.live) - reachable(pl.heap, p, q.names)
                out.append(('what is allocated is returned', not lost, 'allocated but not returned: %s' % ', '.join(str(pl.heap.live[x]) for x in list(lost)[:3])))
        return out
    queries(ctx, QUERIES, judge, few=True, nulls=True)


def reachable(h, p, names):
    seen = set()

    def go(v):
        if isinstance(v, tuple) and len(v) == 3 and v[0] == 'P':
            if v[1] not in seen and v[1] in h.objs:
                seen.add(v[1])
                go(h.objs[v[1]])
        elif isinstance(v, dict):
            for x in v.values():
                go(x)
        elif isinstance(v, list):
            for x in v:
                go(x)
    for n in names:
        if n in ('nn', 'nns', 'en', 'nt', 'ei'):
            go(p[n])
    return seen


def c28(ctx):
    ctx.rule('On small graphs each query whose validation of an argument fails, or which is given a null count, returns INVALID_ARGUMENT '
             'before it allocates or writes anything.')

    def judge(q, c, a, nl):
        pl, res, p = q.run(c, a, nulls=nl)
        checks = [k for k, _, _ in pl.heap.trace if k[0] in VALIDATES]
        out = []
        args = {}
        for k, av, oc in pl.heap.trace:
            if k[0] in VALIDATES:
                args.setdefault(k[0], []).append(av[0])
        need = [('rcutils_allocator_is_valid', 'alloc'), ('rmw_names_and_types_check_zero', 'nt'), ('rmw_check_zero_rmw_string_array', 'nn'),
                ('rmw_check_zero_rmw_string_array', 'nns'), ('rmw_check_zero_rmw_string_array', 'en')]
        for f, n in need:
            if n in q.names and n not in nl:
                out.append(('every argument is validated', p[n] in args.get(f, []), '%s is not checked with %s' % (n, f)))
        for key in checks:
            pl, res, p = q.run(c, a, lambda k: ERROR if k == key else None, nl)
            out.append(('invalid arguments are rejected', res == INVALID, 'returns %s when %s rejects' % (res, key[0])))
            acts = [k for k, _, _ in pl.heap.trace if k[0] in ALLOCATES + RELEASES] + [e for e in pl.log if e[0] == 'write']
            out.append(('invalid arguments have no effect', not acts, 'memory is touched although %s rejects' % key[0]))
        return out
    queries(ctx, [NN, NT, BW, BR], judge, few=True, nulls=True)

    def nocount(q, c, a, nl):
        pl, res, p = q.run(c, a, nulls=('count',))
        return [('a null count is rejected', res == INVALID, 'returns %s for a null count' % (res,))]
    queries(ctx, [('get_writer_count', ['topic', 'count']), ('get_reader_count', ['topic', 'count'])], nocount, few=True)


# --------------------------------------------------------------- shared state
def entries(ctx):
    """The public functions of the graph cache: methods, stream operator, instantiated member templates."""
    out = []
    for f in ctx.prog.bodies():
        own = f.get('rec') == GC[:-2] and not f.get('ctor') and not f.get('dtor') and not f.get('hidden') and f.get('method')
        op = f.get('op') and not f.get('method') and any(p.rec == GC[:-2] for p in f.params)
        if own or op:
            out.append(f)
    names = {f.n for f in out}
    for n, _ in MUT:
        if n not in names:
            raise Inconclusive('anchor not found: %s%s' % (GC, n))
    return out


def is_mutex(t):
    return t.rec in ('std::mutex', 'std::recursive_mutex', 'std::shared_mutex', 'std::timed_mutex')


class Access:
    """Reads and writes of the members of the cache along one entry point."""

    def __init__(self, ctx, f, members):
        self.f, self.w = f, where(f)
        self.acc = []           # (member, 'read'|'write', locks, cur)
        self.members = members
        eng = self.eng = ctx.engine(log_mut=True, havoc_ptr=True, observed=observed, drop_dead=True,
                                    ignore_fn=lambda g: g.q.startswith('rcutils_set_error') or g.q.startswith('rcutils_reset_error'))
        self.self = [THIS] + [('m', ('sym', 'p%d' % i)) for i, p in enumerate(f.params) if p.rec == GC[:-2]]
        eng.read_hooks.append(lambda e, st, l: self.note('read', st, l))
        eng.write_hooks.append(lambda e, st, l, v: self.note('write', st, l))
        self.outs = ctx.run(eng, f, eng.entry_args(f, ['p%d' % i for i in range(len(f.params))]))
        ctx.site('%s: %d accesses' % (f.q, len(self.acc)))

    def note(self, kind, st, l):
        m = self.member(l)
        if m:
            self.acc.append((m, kind, tuple(self.lk(x) for x in st.locks), self.eng.cur))

    def member(self, l):
        root, path = l
        if root in self.self and path and path[0][0] == 'f' and path[0][1] in self.members:
            return path[0][1]
        return None

    def lk(self, m):
        """The mutex, named by its member."""
        if m[0] in self.self and len(m[1]) == 1:
            return m[1][0][1]
        return m


def members_of(ctx):
    for tu in ctx.prog.tus.values():
        r = tu.records.get(GC[:-2])
        if r:
            return {f['n']: tu.type(f['t']) for f in r['f']}
    raise Inconclusive('anchor not found: class GraphCache')


def accesses(ctx):
    ms = members_of(ctx)
    state = {n for n, t in ms.items() if not is_mutex(t) and not t.const}
    locks = {n for n, t in ms.items() if is_mutex(t)}
    return [Access(ctx, f, state) for f in entries(ctx)], state, locks


SCALAR = ('int', 'bool', 'enum', 'float', 'void', 'double')


def holds_location(eng, v, roots, depth=0):
    """Is there a pointer or reference into the cache inside v?"""
    if not isinstance(v, tuple) or depth > 60:
        return False
    if v and v[0] in ('ptr', 'lref', 'refv', 'at') and len(v) > 1 and isinstance(v[1], tuple) and v[1] and v[1][0] in roots:
        return True
    return any(holds_location(eng, x, roots, depth + 1) for x in v if isinstance(x, tuple))


def c10(ctx):
    ctx.rule('Lock sets: every read and write of a member of the cache, on every path from every public method, the stream operator and the '
             'instantiated member templates, happens while one common mutex of the cache is held; no result or out-parameter is a reference or '
             'pointer into the cache.')
    accs, state, locks = accesses(ctx)
    written = {m for a in accs for m, k, _, _ in a.acc if k == 'write'}
    for m in sorted(state):
        if m not in written:
            continue                # never changes after construction
        common = None
        for a in accs:
            for mm, k, held, cur in a.acc:
                if mm == m:
                    h = set(held)
                    common = h if common is None else common & h if common & h else common
        guard = sorted(x for x in common or () if x in locks)
        for a in accs:
            mine = [(k, held, cur) for mm, k, held, cur in a.acc if mm == m]
            if not mine:
                continue
            bad = [(k, cur) for k, held, cur in mine if not set(held) & set(guard)]
            ctx.ob('shared state is accessed under the lock', a.w, not bad,
                   '%s %ss %s without %s at %s' % (a.f.n, bad[0][0], m, guard[0] if guard else 'a common mutex', loc(bad[0][1])) if bad
                   else '%d accesses of %s' % (len(mine), m), key='lockset|%s|%s' % (a.f.m, m))
    for a in accs:
        leak = False
        for k, s, v in a.outs:
            if v is not None and holds_location(a.eng, v, a.self):
                leak = True
        t = a.f.ret
        leak = leak and not a.f.get('op') and t.k not in SCALAR
        ctx.ob('no reference into the cache escapes', a.w, not leak, '%s returns a reference or pointer into the cache' % a.f.n, key='escape|%s' % a.f.m)
    if not written:
        raise Inconclusive('no member of the cache is written')


def c11(ctx):
    ctx.rule('Typestate of the mutexes along every path of every public entry point, with the calls between the methods followed: a mutex is not '
             'acquired while it is held, two mutexes are acquired in one order everywhere, whatever is acquired is released on return, and a '
             'mutex held across a call that may throw is owned by a guard object.')
    accs, state, locks = accesses(ctx)
    order = {}
    for a in accs:
        n = 0
        for k, s, v in a.outs:
            held = []
            manual = set()
            for e in flat(s.ev):
                if e[0] == 'lock':
                    m = a.lk(e[1])
                    n += 1
                    ctx.ob('a held mutex is not acquired again', a.w, m not in held, '%s acquires %s at %s while it holds it' % (a.f.n, m, loc(e[-1])))
                    for h in held:
                        order.setdefault((h, m), (a, e[-1]))
                    held.append(m)
                    if len(e) == 4:
                        manual.add(m)
                elif e[0] == 'unlock':
                    m = a.lk(e[1])
                    ctx.ob('only a held mutex is released', a.w, m in held, '%s releases %s at %s without holding it' % (a.f.n, m, loc(e[-1])))
                    if m in held:
                        held.remove(m)
                    manual.discard(m)
                elif e[0] in ('cb', 'mut') and manual and (e[0] == 'cb' or a.member(e[1])):
                    ctx.ob('released when something throws', a.w, False,
                           '%s holds %s without a guard object across %s' % (a.f.n, sorted(manual)[0], loc(e[-1])))
            ctx.ob('every mutex is released on return', a.w, not held, '%s returns while it holds %s' % (a.f.n, held))
    for (h, m), (a, cur) in order.items():
        if h != m:
            ctx.ob('one acquisition order', a.w, (m, h) not in order, '%s acquires %s after %s at %s, another function the other way round' % (a.f.n, m, h, loc(cur)))


def flat(evs):
    for e in evs:
        if e[0] == 'loop':
            for p in e[3]:
                for x in flat(p[2]):
                    yield x
        else:
            yield e


def c20(ctx):
    ctx.rule('Effect analysis: no path of a const method or of the stream operator writes a member of the cache (mutexes apart) or invokes the '
             'change callback.')
    accs, state, locks = accesses(ctx)
    for a in accs:
        if not (a.f.get('const') or (a.f.get('op') and not a.f.get('method'))):
            continue
        bad = [(m, cur) for m, k, _, cur in a.acc if k == 'write']
        ctx.ob('queries change nothing', a.w, not bad, '%s writes %s at %s' % ((a.f.n, bad[0][0], loc(bad[0][1])) if bad else ('', '', '')), key='pure|%s' % a.f.m)
        cbs = [e for k, s, v in a.outs for e in flat(s.ev) if e[0] == 'cb' and isinstance(e[2], tuple) and CB in str(e)]
        ctx.ob('queries notify nobody', a.w, not cbs, '%s invokes the change callback' % a.f.n, key='quiet|%s' % a.f.m)


# ----------------------------------------------------------------------------------------------------------- printing
def c34(ctx):
    ctx.rule('The output operator is replayed on small graphs with the gid operator left opaque (C62); the data it writes (everything that is not a '
             'literal), taken with the section and list it appears in, must be the records of the graph: gid, topic and type of every '
             'endpoint, gid and enclave of every participant, namespace and name of every node with the gids of its readers and writers.')
    fs = ctx.find('rmw_dds_common::operator<<', 2, lambda f: f.params[1].noref.rec == 'rmw_dds_common::GraphCache')
    if not fs:
        raise Inconclusive('no output operator')
    fn, w = fs[0], where(fs[0])
    eng = ctx.engine(log_mut=True, havoc_ptr=True, observed=observed)

    def gidout(eng, st, fr, f, obj, args, e):
        if f.n == 'operator<<' and len(args) == 2 and f.q != 'std::operator<<' and 'rmw_gid' in f.params[1].noref.s and args[0][0] == 'L':
            s = st.copy()
            v = eng.aval(s, args[1])
            s.ev = s.ev + (('out', models.skey(eng, s, args[0][1]), ('gid', eng.sel(v, ('f', 'data'))), eng.cur),)
            return [(s, ('lref', args[0][1]))]
        return None
    eng.call_hooks.append(gidout)
    os_, this = (('m', ('sym', 'os')), ()), (('this',), ())
    outs = ctx.run(eng, fn, [('L', os_), ('L', this)])
    n, bad = 0, {}
    rules = ('printing returns the stream', 'every endpoint is printed with its topic and type', 'every participant and node is printed with its entities')
    cs = list(part_caches(ctx.thorough)) + list(end_caches(ctx.thorough)) + list(query_caches(ctx.thorough))
    strs, nums = mined(eng, outs)
    cs += [c for _, _, c in shaped_caches({x for x in strs if x not in BASELINE} | set(PLAIN), nums)]
    cs += [c for c, _ in itertools.islice(sampled(3000 if ctx.thorough else 150, 1), 0, None, 4)]
    for c in cs:
        pl = Play(eng, outs, c, {'os': ('tok', 'stream')})
        try:
            r = pl.run()
        except (TypeError, KeyError, IndexError, AttributeError, ValueError) as ex:
            raise Undefined('%s: %s' % (type(ex).__name__, ex))
        n += 1
        if r is None or r[0] != 'r' or pl.exit[2] != ('lref', os_):
            bad.setdefault(rules[0], 'no exit that returns the stream')
            continue
        ends, parts = sections(pl.streams.get(os_, []))
        gids = lambda ns, f: [gnum(g) for g in ns[f]]
        for f, name in ((W, 'writer'), (R, 'reader')):
            want = [sorted(map(str, (gnum(g), e['topic_name'], e['topic_type']))) for g, e in sorted(c[f].items())]
            got = ends[name]
            got = [sorted(map(str, got[i:i + 3])) for i in range(0, len(got), 3)]
            if sorted(got) != sorted(want):
                bad.setdefault(rules[1], '%ss %s are printed as %s' % (name, show(c[f]), got))
        want = []
        for g, p in sorted(c[P].items()):
            want += [('', gnum(g)), ('', p['enclave'])]
            for x in p['node_entities_info_seq']:
                want += [('', x['node_namespace']), ('', x['node_name'])]
                want += [('reader', g) for g in gids(x, 'reader_gid_seq')] + [('writer', g) for g in gids(x, 'writer_gid_seq')]
        if arranged(parts) != arranged(want):
            bad.setdefault(rules[2], 'participants %s are printed as %s' % (show(c[P]), parts))
    for r in rules:
        ctx.ob(r, w, r not in bad, bad.get(r, '%d graphs' % n))
    ctx.assume('the headings of the report say "writers", "readers" and "participants"')


def gnum(g):
    """Number of a gid of a graph."""
    if isinstance(g, dict):
        g = g.get('data', g)
    if isinstance(g, tuple) and g and g[0] == 'g':
        g = g[1]
    return g


def sections(out):
    """Data of the endpoint sections, and of the participants with the list each item is in."""
    ends, parts = {'writer': [], 'reader': []}, []
    top, sub = None, ''
    for data, x in out:
        if not data:
            t = x.lower()
            for m in re.finditer('participant|writer|reader|node|namespace|enclave|gid(?!s)', t):
                if m.group() == 'participant':
                    top, sub = 'participant', ''
                elif m.group() in ends:
                    if top == 'participant' and 'discover' not in t:
                        sub = m.group()
                    else:
                        top, sub = m.group(), ''
                else:
                    sub = ''
            continue
        x = gnum(x)
        if top in ends:
            ends[top].append(x)
        elif top == 'participant':
            parts.append((sub, x))
        else:
            raise Inconclusive('data before any heading')
    return ends, parts


def arranged(parts):
    """The nodes' lists in a fixed order: the readers and writers of one node come in either order."""
    out, run = [], []
    for sub, x in list(parts) + [('', None)]:
        if sub:
            run.append((sub, x))
        else:
            out += sorted(run, key=lambda r: r[0])
            run = []
            out.append((sub, x))
    return out


TUS = ['graph_cache', 'gid_utils']
INST = TUS + ['graph_templates']
RULES = {'C34': (c34, TUS), 'C10': (c10, INST), 'C11': (c11, INST), 'C20': (c20, TUS)}
RULES.update({'C%d' % n: (f, TUS) for n, f in ((12, c12), (13, c13), (14, c14), (15, c15), (16, c16), (17, c17), (18, c18), (19, c19), (21, c21),
                                          (22, c22), (23, c23), (24, c24), (25, c25), (26, c26), (27, c27), (28, c28), (29, c29))})
