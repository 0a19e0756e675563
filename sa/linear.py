"""A small polyhedral domain: conjunctions of linear inequalities over integer unknowns, decided by Fourier-Motzkin
elimination with integer tightening.  Arithmetic terms are turned into linear forms exactly: quotient and remainder by a
constant become unknowns, and every machine operation either stays in range or wraps a whole number of times."""
from math import gcd

from engine import Unsupported, I


class Poly:
    """sum(coef*var) + const >= 0, all of them."""

    def __init__(self, cons=()):
        self.cons = list(cons)

    def with_(self, *cs):
        return Poly(self.cons + [c for c in cs])

    def feasible(self):
        return solve(self.cons) is not None


def lin(const=0, **kw):
    return ({k: v for k, v in kw.items() if v}, const)


def add(a, b, k=1):
    d = dict(a[0])
    for v, c in b[0].items():
        d[v] = d.get(v, 0) + k * c
        if d[v] == 0:
            del d[v]
    return (d, a[1] + k * b[1])


def scale(a, k):
    return ({v: c * k for v, c in a[0].items()} if k else {}, a[1] * k)


def ge(a, b):
    return add(a, b, -1)


def eq2(a, b):
    return [ge(a, b), ge(b, a)]


def gt(a, b):
    d = add(a, b, -1)
    return (d[0], d[1] - 1)


def tighten(c):
    d, k = c
    if not d:
        return c
    g = 0
    for v in d.values():
        g = gcd(g, abs(v))
    if g > 1:
        return ({v: x // g for v, x in d.items()}, k // g)
    return c


def solve(cons):
    """An integer point, () when only rational points were found, or None when there is no point."""
    cur = {}

    def put(store, c):
        c = tighten(c)
        if not c[0]:
            return c[1] >= 0
        k = tuple(sorted(c[0].items()))
        if k not in store or store[k] > c[1]:
            store[k] = c[1]
        return True

    for c in cons:
        if not put(cur, c):
            return None
    stages = []
    while True:
        vs = {}
        for k in cur:
            for v, x in k:
                p, n = vs.get(v, (0, 0))
                vs[v] = (p + (x > 0), n + (x < 0))
        if not vs:
            break
        v = min(vs, key=lambda w: (vs[w][0] * vs[w][1] - vs[w][0] - vs[w][1], w))
        stages.append((v, dict(cur)))
        lo, hi, nxt = [], [], {}
        for k, c in cur.items():
            d = dict(k)
            x = d.get(v, 0)
            if x > 0:
                lo.append((d, c, x))
            elif x < 0:
                hi.append((d, c, -x))
            else:
                nxt[k] = c
        for d1, c1, a in lo:
            for d2, c2, b in hi:
                r = add(scale((d1, c1), b), scale((d2, c2), a))
                r[0].pop(v, None)
                if not put(nxt, r):
                    return None
        if len(nxt) > 20000:
            raise Unsupported('linear system too large')
        cur = nxt
    pt = {}
    for v, st in reversed(stages):
        lo = hi = None
        for k, c in st.items():
            d = dict(k)
            x = d.pop(v, 0)
            if not x:
                continue
            r = c + sum(y * pt[w] for w, y in d.items())
            if x > 0:
                b = -(r // x)              # v >= ceil(-r/x)
                lo = b if lo is None else max(lo, b)
            else:
                b = r // (-x)              # v <= floor(r/-x)
                hi = b if hi is None else min(hi, b)
        if lo is not None and hi is not None and lo > hi:
            return ()
        pt[v] = lo if lo is not None else hi if hi is not None else 0
    return pt


class Forms:
    """Linear forms of exact-arithmetic terms."""

    def __init__(self, leaves):
        self.leaves = leaves          # term -> (name, lo, hi)
        self.n = 0

    def fresh(self, p):
        self.n += 1
        return '%s%d' % (p, self.n)

    def form(self, t, P, memo):
        """[(polyhedron, linear form, memo)]: every way the term can evaluate inside P."""
        if t in memo:
            return [(P, memo[t], memo)]
        if t[0] == 'i':
            return [(P, lin(t[1]), memo)]
        if t in self.leaves:
            return [(P, lin(0, **{self.leaves[t]: 1}), memo)]
        out = []
        if t[0] == 'w':
            _, op, bits, uns, a, b = t
            for P1, fa, m1 in self.form(a, P, memo):
                for P2, fb, m2 in self.form(b, P1, m1):
                    if op in '+-':
                        out += self.wrapped(t, add(fa, fb, 1 if op == '+' else -1), bits, uns, P2, m2)
                    elif op == '*':
                        if fa[0] and fb[0]:
                            raise Unsupported('product of two unknowns')
                        x, k = (fa, fb[1]) if not fb[0] else (fb, fa[1])
                        out += self.wrapped(t, scale(x, k), bits, uns, P2, m2)
                    elif op in '/%':
                        if fb[0] or fb[1] <= 0:
                            raise Unsupported('division by something that is not a positive constant')
                        if P2.with_(add(scale(fa, -1), lin(-1))).feasible():
                            raise Unsupported('division of a possibly negative number')
                        key = ('quot', frozenset(fa[0].items()), fa[1], fb[1])
                        if key in m2:
                            q, m = m2[key]
                            P3, m3 = P2, m2
                        else:
                            q, m = lin(0, **{self.fresh('q'): 1}), lin(0, **{self.fresh('m'): 1})
                            P3 = P2.with_(*eq2(fa, add(scale(q, fb[1]), m)), ge(m, lin(0)), ge(lin(fb[1] - 1), m), ge(q, lin(0)))
                            m3 = dict(m2)
                            m3[key] = (q, m)
                        m3 = dict(m3)
                        m3[t] = q if op == '/' else m
                        out.append((P3, m3[t], m3))
                    else:
                        raise Unsupported('operator %s on integers' % op)
            return out
        if t[0] == 'c':
            _, bits, uns, a = t
            for P1, fa, m1 in self.form(a, P, memo):
                out += self.wrapped(t, fa, bits, uns, P1, m1)
            return out
        raise Unsupported('integer term %s' % (t[0],))

    def wrapped(self, t, f, bits, uns, P, memo):
        lo, hi = (0, 2 ** bits - 1) if uns else (-2 ** (bits - 1), 2 ** (bits - 1) - 1)
        out = []
        P0 = P.with_(ge(f, lin(lo)), ge(lin(hi), f))
        if P0.feasible():
            m = dict(memo)
            m[t] = f
            out.append((P0, f, m))
        for sign in (1, -1):
            if P.with_(gt(f, lin(hi)) if sign == 1 else gt(lin(lo), f)).feasible():
                k = lin(0, **{self.fresh('k'): 1})
                r = add(f, scale(k, 2 ** bits), -sign)
                m = dict(memo)
                m[t] = r
                out.append((P.with_(ge(k, lin(1)), ge(r, lin(lo)), ge(lin(hi), r)), r, m))
        return out

    def cubes(self, M, node, P, memo):
        """[(polyhedron, memo)] covering the part of P in which a condition over ('rcmp', a, b) atoms holds."""
        out = []

        def go(n, P, memo):
            if n == 0:
                return
            if n == 1:
                out.append((P, memo))
                return
            atom, kids = M.branches(n)
            if atom[0] not in ('rcmp',):
                raise Unsupported('condition %s' % (atom[0],))
            for P1, fa, m1 in self.form(atom[1], P, memo):
                for P2, fb, m2 in self.form(atom[2], P1, m1):
                    for keys, kid in kids:
                        if kid == 0:
                            continue
                        for k in keys:
                            c = {'<': [gt(fb, fa)], '=': eq2(fa, fb), '>': [gt(fa, fb)]}[k]
                            P3 = P2.with_(*c)
                            if P3.feasible():
                                go(kid, P3, m2)
        go(node, P, memo)
        return out
