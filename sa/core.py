"""What every rule shares: obligations, verdicts, evidence."""
import json
import os
import sys
import time
import traceback

from engine import Engine, Unsupported, NoMerge, contains_term
from prog import Program
import export

VERIF = export.VERIF


class Inconclusive(Exception):
    """The source uses something the analysis has no sound model for."""


class Obligation:
    __slots__ = ('rule', 'where', 'ok', 'detail', 'unknown', 'key')

    def __init__(self, rule, where, ok, detail, unknown, key):
        self.rule, self.where, self.ok, self.detail, self.unknown, self.key = rule, where, ok, detail, unknown, key


class Ctx:
    def __init__(self, pid, prog, thorough, seed):
        self.pid, self.prog, self.thorough, self.seed = pid, prog, thorough, seed
        self.obs = []
        self.functions = {}
        self.exits = 0
        self.entries = []
        self.steps = 0
        self.opaque = {}
        self.inconclusive = []
        self.sites = []
        self.rules = []
        self.assumptions = []
        self.engines = 0

    # -- obligations --------------------------------------------------------
    def rule(self, text):
        self.rules.append(text)

    def assume(self, *texts):
        self.assumptions += [t for t in texts if t not in self.assumptions]

    def ob(self, rule, where, ok, detail='', unknown=False, key=None):
        self.obs.append(Obligation(rule, where, bool(ok), detail, unknown, key or '%s|%s' % (rule, where)))
        return bool(ok)

    def giveup(self, why):
        if why not in self.inconclusive:
            self.inconclusive.append(why)

    def site(self, s):
        if s not in self.sites:
            self.sites.append(s)

    # -- analysis -----------------------------------------------------------
    def find(self, q, nparams=None, pred=None, what=None):
        fs = self.prog.find(q, nparams, pred)
        if not fs:
            raise Inconclusive('anchor not found: %s' % (what or q))
        return fs

    def one(self, q, nparams=None, pred=None):
        fs = self.find(q, nparams, pred)
        if len(fs) != 1:
            raise Inconclusive('anchor %s is ambiguous (%d definitions)' % (q, len(fs)))
        return fs[0]

    def engine(self, **opt):
        e = Engine(self.prog, **opt)
        self.engines += 1
        return e

    def run(self, eng, fn, args=None, **kw):
        outs = eng.run(fn, eng.entry_args(fn) if args is None else args, **kw)
        self.took(eng, fn, outs)
        return outs

    def took(self, eng, fn, outs):
        self.entries.append('%s (%s)' % (fn.q, where(fn)))
        self.exits += len(outs)
        for f in eng.inlined.values():
            self.functions[f.key] = '%s (%s)' % (f.q, where(f))
        for k, n in eng.opaque_calls.items():
            self.opaque[k] = self.opaque.get(k, 0) + n
        self.steps += eng.steps
        eng.steps = 0
        if eng.notes:
            for n in eng.notes:
                self.giveup(str(n)[:300])

    def guard(self, what):
        return Guard(self, what)


class Guard:
    def __init__(self, ctx, what):
        self.ctx, self.what = ctx, what

    def __enter__(self):
        return self

    def __exit__(self, et, ev, tb):
        if et is None:
            return False
        if issubclass(et, (Unsupported, NoMerge, Inconclusive, RecursionError, KeyError, TypeError, IndexError, AttributeError,
                           ValueError, AssertionError)):
            t = traceback.extract_tb(tb)[-1]
            self.ctx.giveup('%s: %s: %s [%s:%d]' % (self.what, et.__name__, str(ev)[:300], os.path.basename(t.filename), t.lineno))
            return True
        return False


def where(fn):
    return strip(fn.where)


def strip(w):
    r = export.REPO + '/'
    return w[len(r):] if w.startswith(r) else w


def loc(cur):
    f, l = cur[0], cur[1]
    return '%s:%s' % (strip(str(f)), l)


def load_known():
    out = []
    p = VERIF + '/known_findings.txt'
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('finding: '):
                head, _, text = line[len('finding: '):].partition(' :: ')
                d = dict(x.split('=', 1) for x in head.split(' ') if '=' in x)
                out.append((d['property'], d['key'].replace('%20', ' '), text))
    return out
