"""Local graph updates and their announcement (C30-C33)."""
from collections import Counter
from core import Inconclusive, where, loc
from engine import I, NULL

C = 'rmw_dds_common::Context::'
GC = 'rmw_dds_common::GraphCache::'
INV = {'add_node': 'remove_node', 'associate_reader': 'dissociate_reader', 'associate_writer': 'dissociate_writer'}
INV.update({v: k for k, v in list(INV.items())})
ADDS = ('add_node', 'associate_reader', 'associate_writer')
CACHE = (('this',), (('f', 'graph_cache'),))
THIS = ('sym', 'this')
GID = ('fld', THIS, 'gid')
KINDS = {'node': [], 'subscriber': ['reader'], 'publisher': ['writer'], 'client': ['writer', 'reader'], 'service': ['reader', 'writer']}


def pub_op(f):
    return f.q.startswith(GC)


class Method:
    """One Context method: its exits with the ordered graph updates and announcements."""

    def __init__(self, ctx, verb, kind):
        self.verb, self.kind, self.name = verb, kind, '%s_%s_graph' % (verb, kind)
        n = len(KINDS[kind])
        fn = self.fn = ctx.one(C + self.name, n + 2)
        self.w = where(fn)
        eng = self.eng = ctx.engine(opaque_fn=pub_op, ignore_fn=lambda f: f.q.startswith('rcutils_set_error') or f.q.startswith('rcutils_reset_error'))
        self.M = eng.M
        names = ['gid%d' % i for i in range(n)] + ['name', 'namespace']
        outs = ctx.run(eng, fn, eng.entry_args(fn, names))
        t = []
        for i, nm in enumerate(names):
            ty = fn.tu.type(fn.body['p'][i]['t'])
            t.append(('deref', ('sym', nm)) if ty.k in ('ref', 'rref') else ('sym', nm))
        node = (GID, t[n], t[n + 1])
        if kind == 'node':
            want = [('node', node)]
        else:
            want = [(k, (t[i],) + node) for i, k in enumerate(KINDS[kind])]
        pre = {'add': {'node': 'add_node', 'reader': 'associate_reader', 'writer': 'associate_writer'},
               'remove': {'node': 'remove_node', 'reader': 'dissociate_reader', 'writer': 'dissociate_writer'}}[verb]
        self.want = Counter((pre[k], a) for k, a in want)
        self.pub, self.cb = ('fld', THIS, 'pub'), ('fld', THIS, 'publish_callback')
        self.exits = []
        for k, s, v in outs:
            c = self.M.AND(s.cond, eng.care())
            if c:
                self.exits.append((k, c, s, v))
        ctx.site('%s: %d exits' % (fn.q, len(self.exits)))

    def ops(self, s):
        """[('op', name, args, result, cur) | ('pub', callee, args, result, cur) | ('lock'|'unlock', mutex, cur)]"""
        out = []
        for e in s.ev:
            if e[0] == 'call':
                q, obj = e[1], e[2]
                if not q.startswith(GC):
                    if obj == CACHE:
                        raise Inconclusive('%s: %s is applied to the graph cache' % (self.name, q))
                    continue
                if obj != CACHE:
                    raise Inconclusive('%s: %s on an object other than this->graph_cache' % (self.name, q))
                nm = q[len(GC):]
                if nm in INV:
                    out.append(('op', nm, e[3], e[4], e[-1]))
                elif self.eng.prog.find(q) and all(f.get('const') for f in self.eng.prog.find(q)):
                    continue
                else:
                    raise Inconclusive('%s calls GraphCache::%s, whose effect this rule does not know' % (self.name, nm))
            elif e[0] == 'cb':
                out.append(('pub', e[1], e[2], e[3], e[-1]))
            elif e[0] in ('lock', 'unlock'):
                out.append(e)
            elif e[0] == 'loop':
                raise Inconclusive('%s: updates inside a loop' % self.name)
        return out

    def nonnull(self):
        M, e = self.M, self.eng
        return M.ANDs(M.NOT(e.eq(self.pub, NULL)), M.NOT(e.eq(self.cb, NULL)))

    def status(self, v):
        """Node of 'the method returns RMW_RET_OK'."""
        return self.eng.eq(v, I(0))


def methods(ctx):
    for kind in KINDS:
        for verb in ('add', 'remove'):
            yield Method(ctx, verb, kind)


def opname(o):
    return o[1] if o[0] == 'op' else 'publish'


def c30(ctx):
    ctx.rule('On every exit of the ten update methods the cache updates, the announcement and the roll-back lie inside one uninterrupted '
             'ownership period of one mutex of the context, the same for all ten; the announced message is the value returned by the last '
             'update before it, and no update stands between that value and its announcement.')
    common = None
    seen = {}
    for m in methods(ctx):
        for i, (k, c, s, v) in enumerate(m.exits):
            w = '%s exit %d' % (m.w, i)
            held, period, spans = {}, 0, []
            ops = m.ops(s)
            last = None
            for o in ops:
                if o[0] == 'lock':
                    if o[1] in held:
                        ctx.ob('no double acquisition', w, False, '%s acquires a mutex it holds (%s)' % (m.name, loc(o[-1])))
                    period += 1
                    held[o[1]] = period
                elif o[0] == 'unlock':
                    held.pop(o[1], None)
                else:
                    spans.append(set(held.items()))
                    if o[0] == 'op':
                        last = o
                    else:
                        msg = o[2][1] if len(o[2]) > 1 else None
                        ctx.ob('the announcement is the result of the last update', '%s %s' % (w, loc(o[-1])),
                               last is not None and msg == ('ptrto', last[3]),
                               '%s publishes %s, which is not the state returned by the last update (%s)' % (
                                   m.name, m.eng.show(msg)[:200] if msg else 'nothing', last[1] if last else 'none'))
            ctx.ob('released at exit', w, not held, '%s leaves a mutex locked' % m.name)
            if not spans:
                continue
            whole = {h[0] for h in set.intersection(*spans)}
            whole = {x for x in whole if x[0] == ('this',)}
            ctx.ob('update and announcement in one critical section', w, bool(whole),
                   '%s: %s are not inside one critical section, so announcements can be published in another order than the updates' % (
                       m.name, ', '.join(opname(o) for o in ops if o[0] in ('op', 'pub'))))
            if whole:
                seen[m.name] = whole
                common = whole if common is None else common & whole
    ctx.ob('one mutex for all methods', 'Context', bool(common), 'the update methods do not share a mutex')
    ctx.assume('std::mutex and its RAII wrappers behave as specified', 'the listener thread calls GraphCache directly and takes no part in this ordering')


def c31(ctx):
    ctx.rule('On every exit: the method returns RMW_RET_OK exactly when its announcement was made and the transport returned RMW_RET_OK, otherwise '
             'RMW_RET_ERROR; a failing add leaves the cache with no net update (each applied update undone exactly once by its inverse with the same '
             'arguments), a remove is never undone.')
    for m in methods(ctx):
        M = m.M
        for i, (k, c, s, v) in enumerate(m.exits):
            w = '%s exit %d' % (m.w, i)
            if k != 'r':
                ctx.ob('returns a status', w, False, '%s can exit by an exception' % m.name)
                continue
            ops = m.ops(s)
            pubs = [o for o in ops if o[0] == 'pub']
            sent = M.ORs(*[m.eng.eq(o[3], I(0)) for o in pubs]) if pubs else 0
            ok = m.status(v)
            bad = M.ANDs(c, ok, M.NOT(sent))
            ctx.ob('success is reported only after a successful announcement', w, bad == 0,
                   '%s returns RMW_RET_OK although %s' % (m.name, 'the announcement failed' if pubs else 'nothing was announced'))
            lost = M.ANDs(c, sent, M.NOT(ok))
            ctx.ob('a successful announcement is success', w, lost == 0, '%s reports failure after the update was announced' % m.name)
            err = M.ANDs(c, M.NOT(ok), M.NOT(m.eng.eq(v, I(1))))
            ctx.ob('failure is RMW_RET_ERROR', w, err == 0, '%s fails with a code other than RMW_RET_ERROR' % m.name)
            if len(pubs) > 1:
                continue
            net = Counter()
            for o in ops:
                if o[0] == 'op':
                    inv = (INV[o[1]], o[2])
                    if net[inv] > 0:
                        net[inv] -= 1
                    else:
                        net[(o[1], o[2])] += 1
            net = +net
            if m.verb == 'add' and M.ANDs(c, M.NOT(sent)):
                ctx.ob('a failed add is rolled back', w, not net,
                       '%s leaves the cache changed although it failed: net effect %s' % (m.name, show(m, net)))
            if M.AND(c, sent) or m.verb == 'remove':
                ctx.ob('the update stays', w, net == m.want, '%s: net effect %s instead of %s' % (m.name, show(m, net), show(m, m.want)))


def show(m, ops):
    return '; '.join('%s(%s)' % (o, ', '.join(m.eng.show(a) for a in args)) for o, args in ops.elements()) or 'nothing'


def c32(ctx):
    ctx.rule('The multiset of cache updates before the announcement is computed per exit with symbolic arguments: node=add/remove_node, '
             'subscription=reader, publisher=writer, client=writer(request)+reader(response), service=reader(request)+writer(response), each '
             'with the context\'s participant gid, the given name and the given namespace.')
    for m in methods(ctx):
        n = 0
        for i, (k, c, s, v) in enumerate(m.exits):
            w = '%s exit %d' % (m.w, i)
            ops = m.ops(s)
            pubs = [j for j, o in enumerate(ops) if o[0] == 'pub']
            if pubs:
                before = Counter((o[1], o[2]) for o in ops[:pubs[0]] if o[0] == 'op')
                n += 1
                ctx.ob('the right entities of the right node', w, before == m.want,
                       '%s applies %s instead of %s' % (m.name, show(m, before), show(m, m.want)))
            else:
                for o in ops:
                    if o[0] == 'op':
                        fwd = o[1] if (o[1] in ADDS) == (m.verb == 'add') else INV[o[1]]
                        ctx.ob('no foreign update', '%s %s' % (w, loc(o[-1])), (fwd, o[2]) in m.want,
                               '%s applies %s(%s)' % (m.name, o[1], ', '.join(m.eng.show(a) for a in o[2])))
        ctx.ob('announces', m.w, n > 0, '%s never publishes' % m.name)


def c33(ctx):
    ctx.rule('On every exit: an invocation of the publish callback happens only where the path condition implies that publisher and callback are set, '
             'its arguments are the context\'s publisher and a message, it happens at most once, and it happens on every exit where both are set.')
    for m in methods(ctx):
        M = m.M
        nn = m.nonnull()
        for i, (k, c, s, v) in enumerate(m.exits):
            w = '%s exit %d' % (m.w, i)
            pubs = [o for o in m.ops(s) if o[0] == 'pub']
            for o in pubs:
                ctx.ob('the callback is the context\'s', w, o[1] == m.cb, '%s calls %s' % (m.name, m.eng.show(o[1])))
                ctx.ob('never through a missing publisher or callback', '%s %s' % (w, loc(o[-1])), M.AND(c, M.NOT(nn)) == 0,
                       '%s invokes the callback without a publisher or without a callback set' % m.name)
                ctx.ob('on the context\'s publisher', w, o[2] and o[2][0] == m.pub, '%s publishes through %s' % (m.name, m.eng.show(o[2][0]) if o[2] else '?'))
            ctx.ob('at most one announcement per update', w, len(pubs) < 2, '%s publishes %d times' % (m.name, len(pubs)))
            if not pubs:
                ctx.ob('announced whenever possible', w, M.AND(c, nn) == 0, '%s skips the announcement although publisher and callback are set' % m.name)
        for x in m.eng.nullderef:
            if x[-1] and M.AND(x[-1], m.eng.care()):
                ctx.ob('no null dereference', loc(x[0]), False, '%s: %s' % (m.name, x[1]))


RULES = {'C30': (c30, ['context']), 'C31': (c31, ['context']), 'C32': (c32, ['context']), 'C33': (c33, ['context'])}
