"""Summaries evaluated on concrete machine integers (wrap-around, truncation and sign included).

Used only to refute: where a symbolic rule cannot classify a term, the same term is computed for a fixed set of
representative inputs; one that breaks the property is a definite violation, none leaves the rule without an answer."""
import struct

from concrete import Eval, Undefined


def wrap(n, bits, unsigned):
    n &= (1 << bits) - 1
    if not unsigned and n >> (bits - 1):
        n -= 1 << bits
    return n


def cdiv(x, y):
    if y == 0:
        raise Undefined('division by zero')
    return abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)


def convert(v, kind, unsigned):
    if kind == 'f64':
        return float(v)
    if kind == 'f32':
        return struct.unpack('f', struct.pack('f', v))[0]
    if isinstance(kind, str):
        raise Undefined('extended precision')
    if isinstance(v, float):
        if v != v or wrap(int(v), kind, unsigned) != int(v):
            raise Undefined('conversion of %s' % v)
        return int(v)
    return wrap(v, kind, unsigned)


def floating(op, a, b):
    if op == '/' and b == 0 or op not in '+-*/':
        raise Undefined('operator %s' % op)
    return {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '/': lambda: a / b}[op]()


OPS = {'+': lambda x, y: x + y, '-': lambda x, y: x - y, '*': lambda x, y: x * y, '/': cdiv, '%': lambda x, y: x - y * cdiv(x, y),
       '&': lambda x, y: x & y, '|': lambda x, y: x | y, '^': lambda x, y: x ^ y}


class Exact(Eval):
    def __init__(self, eng, leaf):
        super().__init__(eng, leaf)
        self.memo = {}
        self.keep = []
        self.bound = {}

    def seq(self, t):
        """any / first index / count over a range of numbers."""
        if t[1][0] != 'range':
            raise Undefined('sequence %s' % t[1][0])
        b = ('bq', self.eng.max_bq(t[2]))
        n = 0
        old = dict(self.bound)
        try:
            for i in range(max(0, self.num(t[1][1]))):
                self.bound[b] = i
                if self.node(t[2]):
                    if t[0] != 'count':
                        return i if t[0] == 'fi' else True
                    n += 1
        finally:
            self.bound = old
        if t[0] == 'fi':
            raise Undefined('no first element')
        return n if t[0] == 'count' else False

    def possible(self, n, memo):
        """Can the node be true, whatever the atoms without a value are?"""
        if n < 2:
            return n == 1
        if n not in memo:
            lv, ent, d = self.eng.M.nodes[n]
            a = self.eng.M.vars[lv]
            try:
                key = memo.get(a)
                if key is None or a[0] == 'val':
                    if memo.get(('no', a)):
                        raise Undefined('no value')
                    try:
                        key = memo[a] = self.atom(a, [k for k, _ in ent])
                    except Undefined:
                        memo['no', a] = True
                        raise
                nxt = [c for k, c in ent if k == key][:1] or [d]
            except Undefined:
                nxt = [c for _, c in ent] + [d]
            memo[n] = any(self.possible(c, memo) for c in nxt)
        return memo[n]

    def term(self, t):
        k = t[0]
        if k == 'flt':
            return float(t[1])
        if k == 'bq' and t in self.bound:
            return self.bound[t]
        if k in ('fi', 'count', 'any') and self.leaf(t) is None:
            return self.seq(t)
        if self.bound and k in ('w', 'c', 'trunc', 'op'):
            return self.compute(t, k)
        if k in ('w', 'c', 'trunc', 'op'):
            m = self.memo.get(id(t))
            if m is not None:
                return m
            r = self.compute(t, k)
            self.memo[id(t)] = r
            self.keep.append(t)
            return r
        return super().term(t)

    def compute(self, t, k):
        if k == 'c':
            return convert(self.real(t[3]), t[1], t[2])
        if k == 'trunc':
            return wrap(self.num(t[2]), t[1][1], True)
        if k == 'w':
            op, bits, u, a, b = t[1:6]
        elif len(t) == 4:
            op, bits, u, a, b = t[1], None, None, t[2], t[3]
        else:
            raise Undefined('operator %s' % (t[1],))
        a, b = self.real(a), self.real(b)
        if isinstance(a, float) or isinstance(b, float):
            return floating(op, a, b)
        if op in ('<<', '>>'):
            if not 0 <= b < 64 or a < 0:
                raise Undefined('shift')
            r = a << b if op == '<<' else a >> b
        elif op in OPS:
            r = OPS[op](a, b)
        else:
            raise Undefined('operator %s' % op)
        return r if bits is None else wrap(r, bits, u)

    def num(self, t):
        v = self.term(t)
        if v is True or v is False:
            return int(v)
        if not isinstance(v, int):
            raise Undefined('not a number')
        return v

    def real(self, t):
        v = self.term(t)
        return v if isinstance(v, float) else self.num(t)

    def atom(self, a, keys):
        if a[0] == 'rcmp' and self.leaf(a) is None:
            x, y = self.real(a[1]), self.real(a[2])
            return '<' if x < y else '>' if x > y else '='
        if a[0] == 'any' and self.leaf(a) is None:
            return 1 if self.seq(a) else 0
        return super().atom(a, keys)
