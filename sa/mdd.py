"""Multi-valued decision diagrams: the path-condition domain of the analysis.

A variable is an atom (a hashable key).  A node is an int; 0 is false, 1 true.
An inner node is (level, ((key, child), ...), default): the child for every
listed key of the atom, `default` for all other keys.  Boolean atoms use the
single key 1.  A variable may have a declared finite domain, in which case its
last key is the one represented by `default`, so that diagrams stay canonical.
"""


class Mgr:
    def __init__(self):
        self.nodes = [None, None]
        self.uniq = {}
        self.vars = []
        self.level = {}
        self.dom = []
        self._and = {}
        self._neg = {0: 1, 1: 0}
        self._con = {}

    # -- variables ---------------------------------------------------------
    def var(self, atom, dom=None):
        lv = self.level.get(atom)
        if lv is None:
            lv = len(self.vars)
            self.level[atom] = lv
            self.vars.append(atom)
            self.dom.append(tuple(dom) if dom else None)
        return lv

    def lit(self, atom, keys=(1,), dom=None):
        """Node for `atom takes one of keys`."""
        if ('null',) in keys:      # one key for a null pointer, however it is written
            keys = tuple(('i', 0) if k == ('null',) else k for k in keys)
        lv = self.var(atom, dom)
        d = self.dom[lv]
        keys = set(keys)
        if d:
            last = d[-1]
            default = 1 if last in keys else 0
            ent = {k: (1 if k in keys else 0) for k in d[:-1]}
        else:
            default = 0
            ent = {k: 1 for k in keys}
        return self.mk(lv, ent, default)

    def mk(self, lv, ent, default):
        e = tuple(sorted(((k, c) for k, c in ent.items() if c != default), key=lambda kc: repr(kc[0])))
        if not e:
            return default
        key = (lv, e, default)
        n = self.uniq.get(key)
        if n is None:
            n = len(self.nodes)
            self.nodes.append(key)
            self.uniq[key] = n
        return n

    # -- operations --------------------------------------------------------
    def branches(self, n):
        """(atom, [(keys, child)]) of an inner node whose atom has a declared domain."""
        lv, e, d = self.nodes[n]
        got = dict(e)
        return self.vars[lv], [((k,), got.get(k, d)) for k in self.dom[lv]] if self.dom[lv] else \
            [((k,), c) for k, c in e] + [((None,), d)]

    def AND(self, a, b):
        if a == 0 or b == 0:
            return 0
        if a == 1:
            return b
        if b == 1 or a == b:
            return a
        if a > b:
            a, b = b, a
        key = (a, b)
        r = self._and.get(key)
        if r is not None:
            return r
        la, ea, da = self.nodes[a]
        lb, eb, db = self.nodes[b]
        if la == lb:
            xa, xb = dict(ea), dict(eb)
            ent = {k: self.AND(xa.get(k, da), xb.get(k, db)) for k in set(xa) | set(xb)}
            r = self.mk(la, ent, self.AND(da, db))
        elif la < lb:
            r = self.mk(la, {k: self.AND(c, b) for k, c in ea}, self.AND(da, b))
        else:
            r = self.mk(lb, {k: self.AND(a, c) for k, c in eb}, self.AND(a, db))
        self._and[key] = r
        return r

    def NOT(self, a):
        r = self._neg.get(a)
        if r is None:
            lv, e, d = self.nodes[a]
            r = self.mk(lv, {k: self.NOT(c) for k, c in e}, self.NOT(d))
            self._neg[a] = r
            self._neg[r] = a
        return r

    def OR(self, a, b):
        return self.NOT(self.AND(self.NOT(a), self.NOT(b)))

    def ITE(self, c, a, b):
        return self.OR(self.AND(c, a), self.AND(self.NOT(c), b))

    def ANDs(self, *ns):
        r = 1
        for n in ns:
            r = self.AND(r, n)
        return r

    def ORs(self, *ns):
        r = 0
        for n in ns:
            r = self.OR(r, n)
        return r

    def implies(self, a, b):
        return self.AND(a, self.NOT(b)) == 0

    def sat(self, a):
        return a != 0

    def equiv(self, a, b, care=1):
        return self.AND(care, a) == self.AND(care, b)

    def constrain(self, f, c):
        """A function equal to f wherever c holds, preferably smaller."""
        if c == 0 or c == 1 or f in (0, 1):
            return f
        if f == c:
            return 1
        key = (f, c)
        r = self._con.get(key)
        if r is not None:
            return r
        if self.AND(f, c) == 0:
            r = 0
        elif self.AND(c, self.NOT(f)) == 0:
            r = 1
        else:
            lf, ef, df = self.nodes[f]
            lc, ec, dc = self.nodes[c]
            if lc < lf:
                # drop the variable of c that f does not test
                u = dc
                for _, ch in ec:
                    u = self.OR(u, ch)
                d = self.dom[lc]
                r = self.constrain(f, u)
            else:
                xf = dict(ef)
                xc = dict(ec) if lc == lf else {}
                cd = dc if lc == lf else c
                keys = set(xf) | set(xc)
                res = {}
                for k in keys:
                    ck = xc.get(k, cd) if lc == lf else c
                    if ck != 0:
                        res[k] = self.constrain(xf.get(k, df), ck)
                dflt = self.constrain(df, cd) if cd != 0 else None
                vals = set(res.values()) | ({dflt} if dflt is not None else set())
                if len(vals) == 1:
                    r = vals.pop()
                else:
                    if dflt is None:
                        dflt = next(iter(res.values()))
                    ent = {k: res.get(k, dflt) for k in keys}
                    r = self.mk(lf, ent, dflt)
        self._con[key] = r
        return r

    def support(self, f):
        seen, out, st = set(), set(), [f]
        while st:
            n = st.pop()
            if n in seen or n < 2:
                continue
            seen.add(n)
            lv, e, d = self.nodes[n]
            out.add(self.vars[lv])
            st.extend(c for _, c in e)
            st.append(d)
        return out

    def exists(self, f, pred):
        """Quantify out every atom for which pred(atom)."""
        memo = {}

        def go(n):
            if n < 2:
                return n
            if n in memo:
                return memo[n]
            lv, e, d = self.nodes[n]
            if pred(self.vars[lv]):
                r = go(d)
                for _, c in e:
                    r = self.OR(r, go(c))
            else:
                # children may mention only later levels: rebuild in place
                r = self.mk(lv, {k: go(c) for k, c in e}, go(d))
            memo[n] = r
            return r
        return go(f)

    def rebuild(self, f, fun):
        """Replace atoms: fun(atom, key) -> node for `new atom has key`, None to keep."""
        memo = {}

        def go(n):
            if n < 2:
                return n
            if n in memo:
                return memo[n]
            lv, e, d = self.nodes[n]
            atom = self.vars[lv]
            rest = 1
            r = 0
            for k, c in e:
                g = fun(atom, k)
                if g is None:
                    g = self.lit(atom, (k,), self.dom[lv])
                r = self.OR(r, self.ANDs(rest, g, go(c)))
                rest = self.AND(rest, self.NOT(g))
            r = self.OR(r, self.AND(rest, go(d)))
            memo[n] = r
            return r
        return go(f)

    def evaluate(self, f, val):
        """val(atom) -> key; concrete evaluation of the diagram."""
        while f > 1:
            lv, e, d = self.nodes[f]
            k = val(self.vars[lv])
            f = dict(e).get(k, d)
        return f

    def cubes(self, f, limit=64):
        """Yield [(atom, key or ('not', keys))] paths to true."""
        out = []

        def go(n, acc):
            if len(out) >= limit or n == 0:
                return
            if n == 1:
                out.append(list(acc))
                return
            lv, e, d = self.nodes[n]
            for k, c in e:
                go(c, acc + [(self.vars[lv], k)])
            go(d, acc + [(self.vars[lv], ('not', tuple(k for k, _ in e)))])
        go(f, [])
        return out

    def size(self, f):
        seen, st = set(), [f]
        while st:
            n = st.pop()
            if n in seen or n < 2:
                continue
            seen.add(n)
            _, e, d = self.nodes[n]
            st.extend(c for _, c in e)
            st.append(d)
        return len(seen)
