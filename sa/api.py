"""Symbolic clients of the public interface: abstract objects are built by
abstractly running the real constructors on symbolic sizes and contents."""
from .pyint import *
from . import terms as T


class Out(object):
    """result of an abstract call: normal state/value and raise records"""
    def __init__(self, st, val, recs, base):
        self.st, self.val, self.recs, self.base = st, val, recs, base

    @property
    def ok(self):
        return self.st is not None

    def conds(self, s):
        """conditions added after the call started"""
        return list(s.path[len(self.base):])

    def raise_cond(self, *names):
        """condition under which one of the exceptions is raised"""
        cs = []
        for s, e, site in self.recs:
            if not names or any(is_exc(e, n) for n in names):
                cs.append(c_and(self.conds(s)))
        return c_or(cs)

    def ok_cond(self):
        if self.st is None:
            return FALSE
        return c_and(self.conds(self.st))

    def value(self, w, name):
        return w.attr(self.st, self.val, name)


def is_exc(e, n):
    if e.user is not None:
        return exc_issub(e.user.exc or 'Exception', n) or e.user.name == n
    return exc_issub(e.cls, n)


class World(object):
    def __init__(self, root='/repo', use_cext=True, mpl=True, native=None):
        self.I = Interp(root, use_cext, mpl, native)
        self.st0, self.pkg = self.I.package()

    def start(self, *conds):
        st = self.st0.fork()
        for c in conds:
            st.assume(c)
        return st

    def attr(self, st, o, name):
        return self.I.getattr(st, o, name)

    def get(self, st, path):
        v = self.pkg
        for p in path.split('.'):
            v = self.I.getattr(st, v, p)
        return v

    def ref(self, st, mod, fn, *args, **kw):
        """abstract result of a reference formula written in refspec/<mod>.py"""
        s = st.fork()
        m = self.I.import_module(s, 'refspec_' + mod)
        o = self.call(s, self.I.getattr(s, m, fn), *args, **kw)
        self.I.mods.pop('refspec_' + mod, None)
        self.I.functions = set(f for f in self.I.functions if not f.startswith('refspec_'))
        return o

    def run(self, st, fn):
        """fn(state) -> value; collects exceptions"""
        sink = Sink()
        self.I.sinks.append(sink)
        s = st.fork()
        d = self.I.depth
        try:
            v = fn(s)
        except PathEnd:
            s, v = None, None
        finally:
            self.I.sinks.pop()
            self.I.depth = d
        return Out(s, v, sink.recs, st.path)

    def call(self, st, f, *args, **kw):
        if isinstance(f, str):
            f = self.get(st, f)
        return self.run(st, lambda s: self.I.call(s, f, list(args), kw))

    def meth(self, st, o, name, *args, **kw):
        return self.run(st, lambda s: self.I.call(s, self.I.getattr(s, o, name), list(args), kw))

    def getitem(self, st, o, i):
        return self.run(st, lambda s: self.I.getitem(s, o, i))

    def setitem(self, st, o, i, v):
        return self.run(st, lambda s: self.I.setitem(s, o, i, v))

    def binop(self, st, op, a, b):
        return self.run(st, lambda s: self.I.binop(s, op, a, b))

    # -- symbolic data
    def array(self, st, name, shape, dtype='complex128', origin='input'):
        sort = {'complex128': 'complex', 'float64': 'real', 'int64': 'int'}[dtype]
        a = mk_atom('sym', (name, 'arr', sort), sort)
        shape = [num(x) for x in shape]
        return self.I.mkarr(st, shape, lambda ix: sel(a, ix, sort), dtype, origin)

    def must(self, out):
        assert out.ok, [(e, e.args, s) for _, e, s in out.recs]
        return out.st, out.val


def isym(name):
    return from_atom(mk_atom('sym', (name, 'int'), 'int'))


def iv(t):
    return NumV(num(t), 'int')


ALL = SliceV(NONE, NONE, NONE)
