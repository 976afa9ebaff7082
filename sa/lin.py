"""Linearity as a syntactic judgement on terms: a value is linear in the data
when every monomial has exactly one data factor, to the first power, and no
index, size or condition depends on the data.  Applications of linear operators
are linear when their array argument is."""
from .terms import *
from . import terms as T
from .facts import open_lam


def name_of(a):
    b = a.args[0]
    return b.args[0] if isinstance(b, Atom) and b.kind == 'sym' else None


class Lin(object):
    def __init__(self, names):
        self.names = set(names)
        self.memo = {}
        self.dep = {}
        self.vars = set()                 # state variables of recurrences

    def depends(self, x):
        if isinstance(x, (int, str)) or x is None:
            return False
        r = self.dep.get(x)
        if r is None:
            r = self.dep[x] = any((a.kind == 'sel' and name_of(a) in self.names) or (a.kind == 'sym' and a.args[0] in self.names)
                                  or a.kind == 'unk' or a in self.vars for a in T._syms_any(x))
        return r

    def value(self, x):
        """None when x is linear, otherwise what is not"""
        if isinstance(x, Lam):
            if x not in self.memo:
                self.memo[x] = self.value(open_lam(x)[1])
            return self.memo[x]
        if x in self.memo:
            return self.memo[x]
        r = None
        for m, c in x.t.items():
            lin = None
            for a, e in m:
                if not self.depends(a):
                    continue
                if lin is not None or e != 1:
                    r = 'product or power of data: %s' % (m,)
                    break
                lin = a
            if r is None:
                r = 'a term without data: %s' % Num({m: c}) if lin is None else self.atom(lin)
            if r is not None:
                break
        self.memo[x] = r
        return r

    def indep(self, what, *xs):
        for x in xs:
            if self.depends(x):
                return '%s depends on the data: %s' % (what, x)
        return None

    def atom(self, a):
        k, g = a.kind, a.args
        if k == 'sel':
            if name_of(a) in self.names:
                return self.indep('index', *g[1:])
            return 'read of %s at an index that depends on the data' % (g[0],)
        if k == 'sym' and a in self.vars:
            return None
        if k == 'rec':
            r = self.indep('position', g[0]) or self.value(g[2])
            if r:
                return r
            ps, body = open_lam(g[3])
            self.vars |= set(ps[1:])
            return self.value(body)
        if k == 'ite':
            return self.indep('condition', g[0]) or self.value(g[1]) or self.value(g[2])
        if k == 'dft':
            return self.indep('operator size or index', g[1], *g[3:]) or self.value(g[2])
        if k == 'sum':
            return self.indep('summation bounds', *[y for y in g if not isinstance(y, Lam)]) \
                or next((r for r in (self.value(y) for y in g if isinstance(y, Lam)) if r), None)
        if k == 'stk':
            q, n, segs, default = g
            r = self.indep('position', q, n)
            for s in segs:
                r = r or self.indep('position', *s[:-1]) or self.value(s[-1])
            return r or self.value(default)
        return 'function %s of the data' % k


def linear(x, names):
    return Lin(names).value(x)
