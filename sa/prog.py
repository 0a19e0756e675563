"""Loads the exported, type-checked program (one or several translation units)."""
import json
import re


class Type:
    __slots__ = ('d', 'tu', 'id')

    def __init__(self, tu, i, d):
        self.tu, self.id, self.d = tu, i, d

    k = property(lambda s: s.d.get('k'))
    s = property(lambda s: s.d.get('s'))

    @property
    def pointee(self):
        p = self.d.get('p')
        return self.tu.type(p) if p is not None else None

    @property
    def noref(self):
        return self.pointee if self.k in ('ref', 'rref') else self

    @property
    def rec(self):
        """Qualified template name for records, without arguments."""
        t = self.noref
        return strip_tmpl(t.d.get('n', '')) if t.k == 'rec' else ''

    @property
    def targs(self):
        return [self.tu.type(a) if isinstance(a, int) else a for a in self.d.get('a', [])]

    const = property(lambda s: bool(s.d.get('c')))

    def __repr__(self):
        return '<T %s>' % self.s


def strip_tmpl(q):
    """Remove template argument lists (not operator< and friends)."""
    q = q.replace('operator<=>', 'operator@SS').replace('operator<<', 'operator@LL').replace('operator>>', 'operator@RR')
    q = q.replace('operator<=', 'operator@LE').replace('operator>=', 'operator@GE').replace('operator->', 'operator@AR')
    q = re.sub(r'operator<(?=$|\()', 'operator@LT', q)
    q = re.sub(r'operator>(?=$|\()', 'operator@GT', q)
    out, depth = [], 0
    for ch in q:
        if ch == '<':
            depth += 1
        elif ch == '>':
            depth -= 1
        elif depth == 0:
            out.append(ch)
    r = ''.join(out)
    for a, b in (('@SS', '<=>'), ('@LL', '<<'), ('@RR', '>>'), ('@LE', '<='), ('@GE', '>='), ('@AR', '->'), ('@LT', '<'), ('@GT', '>')):
        r = r.replace(a, b)
    return r


class Fn:
    def __init__(self, tu, i, d):
        self.tu, self.id, self.d = tu, i, d
        self.body = None
        self.raw_q = d['q']
        self.q = strip_tmpl(d['q'])
        self.n = d['n']
        self.m = d['m']

    @property
    def params(self):
        return [self.tu.type(p) for p in self.d['p']]

    @property
    def ret(self):
        return self.tu.type(self.d['r'])

    @property
    def rectype(self):
        rt = self.d.get('rt')
        return self.tu.type(rt) if rt is not None else None

    @property
    def key(self):
        return (self.tu.name + ':' if self.d.get('internal') else '') + self.m

    def get(self, k, dflt=None):
        return self.d.get(k, dflt)

    @property
    def where(self):
        return '%s:%d' % (self.tu.files[self.d['file']], self.d['l'])

    def __repr__(self):
        return '<Fn %s>' % self.q


class TU:
    def __init__(self, name, data):
        self.name = name
        self.d = data
        self.errors = data['errors']
        self.files = data['files']
        self._types = [Type(self, i, t) for i, t in enumerate(data['types'])]
        self.fns = [Fn(self, i, f) for i, f in enumerate(data['fns'])]
        for b in data['bodies']:
            self.fns[b['fn']].body = b
        self.records = data['records']
        self.globals = {int(k): v for k, v in data['globals'].items()}

    def type(self, i):
        if i is None or i < 0:
            return None
        return self._types[i]


def private_names(data):
    """The cache's private members under the names the rules use, recognised by their types and roles."""
    rec = data['records'].get('rmw_dds_common::GraphCache')
    if not rec:
        return []
    names = {f['n'] for f in rec['f']}
    t = lambda f: data['types'][f['t']].get('s', '')
    role = {'data_writers_': [f['n'] for f in rec['f'] if 'EntityInfo' in t(f) and 'map' in t(f) and 'writer' in f['n'].lower()],
            'data_readers_': [f['n'] for f in rec['f'] if 'EntityInfo' in t(f) and 'map' in t(f) and 'reader' in f['n'].lower()],
            'participants_': [f['n'] for f in rec['f'] if 'ParticipantInfo' in t(f) and 'map' in t(f)],
            'on_change_callback_': [f['n'] for f in rec['f'] if 'function<' in t(f)]}
    return [(v[0], k) for k, v in role.items() if k not in names and len(v) == 1]


class Program:
    def __init__(self, files):
        self.tus = {}
        self.ext = {}
        for name, path in files.items():
            text = open(path).read()
            data = json.loads(text)
            for old, new in private_names(data):
                text = text.replace(json.dumps(old), json.dumps(new))
                data = json.loads(text)
            tu = TU(name, data)
            self.tus[name] = tu
        for tu in self.tus.values():
            for f in tu.fns:
                if f.body is not None:
                    if f.d.get('internal'):
                        continue
                    self.ext.setdefault(f.m, f)

    def resolve(self, fn):
        """The definition to analyse for a callee, or None."""
        if fn.body is not None:
            return fn
        if fn.d.get('internal'):
            return None
        return self.ext.get(fn.m)

    def find(self, q, nparams=None, pred=None):
        """Project functions with a body and the given qualified name."""
        out, seen = [], set()
        for tu in self.tus.values():
            for f in tu.fns:
                if f.body is None or f.q != q:
                    continue
                if nparams is not None and len(f.d['p']) != nparams:
                    continue
                if pred and not pred(f):
                    continue
                if f.key in seen:
                    continue
                seen.add(f.key)
                out.append(f)
        return out

    def bodies(self, root=None):
        seen = set()
        for tu in self.tus.values():
            for f in tu.fns:
                if f.body is None:
                    continue
                file = tu.files[f.body['file']]
                if root and not file.startswith(root):
                    continue
                k = (f.key, file, f.body['l'])
                if k in seen:
                    continue
                seen.add(k)
                yield f
