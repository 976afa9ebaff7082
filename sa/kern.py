"""Summaries for the transform kernels: in the analysis of a caller a kernel is an
unspecified linear operator (name, sizes, result index) applied to its array
argument; what the operator is, and that it is linear, is the subject of the
checks on the kernels themselves."""
from .api import *
from . import terms as T

def nmodes(N, M):
    return N + 1 + M * (2 * (N + 1) - M - 1)


class Call(object):
    def __init__(self, name, st, shape, lam, ints, site):
        self.name, self.st, self.shape, self.lam, self.ints, self.site = name, st, shape, lam, ints, site

    def __repr__(self):
        return '%s(%s) at %s' % (self.name, ', '.join(map(str, self.ints)), self.site)


class Kernels(object):
    """recorder; also the stand-in for the native extension"""
    def __init__(self):
        self.calls = {}
        self.order = []
        self.bad = []

    def clear(self):
        self.calls.clear()
        del self.order[:]
        del self.bad[:]

    def install(self, I):
        I.summaries['spherepy.pysphi.fc_to_sc'] = self.py_fc_to_sc
        I.summaries['spherepy.pysphi.sc_to_fc'] = self.py_sc_to_fc
        I.summaries['spherepy.ops.divsin_fc'] = self.py_divsin

    def uninstall(self, I):
        I.summaries.clear()

    def record(self, I, st, name, arr, ints):
        """the kernel's result as a function of the output index"""
        ps = [T.fresh_atom('d') for _ in arr.shape]
        vs = [from_atom(p) for p in ps]
        s2 = st.fork(*[c for v, d in zip(vs, arr.shape) for c in (le(ZERO, v), lt(v, d))])
        body = s2.F.simp(I.arr_elem(s2, arr, vs))
        lam = T.mk_lam(ps, body)
        key = (name, lam, tuple(arr.shape), tuple(ints))
        if key not in self.calls:
            self.calls[key] = Call(name, st.fork(), list(arr.shape), lam, list(ints), I.site)
            self.order.append(self.calls[key])
        return lambda ix: T.dft_(name, list(arr.shape), lam, list(ints) + list(ix))

    def intarg(self, I, st, v):
        n = I.as_num(v)
        return None if n is None else n.t

    def as_array(self, I, st, v, nd):
        if not isinstance(v, ArrV):
            return None
        return v if len(v.shape) == nd else None

    # -- pure Python kernels
    def py_fc_to_sc(self, I, st, d):
        v = list(d.values())
        if len(v) != 3:
            return NotImplemented
        a, n, m = self.as_array(I, st, v[0], 2), self.intarg(I, st, v[1]), self.intarg(I, st, v[2])
        if a is None or n is None or m is None:
            return NotImplemented
        f = self.record(I, st, 'fc_to_sc', a, [n, m])
        return I.mkarr(st, [nmodes(n, m)], f, 'complex128')

    def py_sc_to_fc(self, I, st, d):
        v = list(d.values())
        if len(v) != 5:
            return NotImplemented
        a = self.as_array(I, st, v[0], 1)
        ns = [self.intarg(I, st, x) for x in v[1:]]
        if a is None or None in ns:
            return NotImplemented
        f = self.record(I, st, 'sc_to_fc', a, ns)
        return I.mkarr(st, [ns[2], ns[3]], f, 'complex128')

    def py_divsin(self, I, st, d):
        v = list(d.values())
        a = self.as_array(I, st, v[0], 2) if len(v) == 1 else None
        if a is None or a.dtype != 'complex128':
            return NotImplemented
        f = self.record(I, st, 'divsin', a, [])
        I.setitem(st, a, TupleV([ALL, ALL]), I.mkarr(st, a.shape, f, 'complex128'))
        return NONE

    # -- native kernels: typemap checks, then the same uninterpreted functions
    def attr(self, interp, st, name):
        h = getattr(self, 'n_' + name, None)
        if h is None:
            return BuiltinV('native:' + name, lambda i, s, a, k: i.unknown('native call'))
        return BuiltinV('native:' + name, lambda i, s, a, k: h(i, s, a, k))

    def typed(self, I, st, args, kw, kinds):
        """-> argument values after the typemaps' checks"""
        if kw or len(args) != len(kinds):
            I.terr(st, 'wrong number of arguments')
        out = []
        for v, k in zip(args, kinds):
            if k == 'int':
                n = I.as_num(v)
                if n is None and isinstance(v, UnkV):
                    return None
                if n is None or n.ty not in ('int', 'bool'):
                    self.bad.append((I.site, 'integer argument is %r' % v))
                    I.terr(st, 'int expected')
                out.append(n.t)
                continue
            if isinstance(v, UnkV):
                return None
            if not isinstance(v, ArrV) or len(v.shape) != k or v.dtype != 'complex128' or not v.contig or I.single(st, v):
                self.bad.append((I.site, 'array argument is not a contiguous complex128 array of rank %d' % k))
                I.terr(st, 'contiguous complex128 array expected')
            out.append(v)
        return out

    def splitargs(self, I, st, args, fn):
        """argument cases of joined values"""
        for j, v in enumerate(args):
            if isinstance(v, PhiV):
                return I.on(st, v, lambda s, x: self.splitargs(I, s, list(args[:j]) + [x] + list(args[j + 1:]), fn))
        return fn(st, args)

    def n_fc_to_sc(self, I, st, args, kw):
        def go(st, args):
            v = self.typed(I, st, args, kw, [2, 1, 'int', 'int'])
            if v is None:
                return I.unknown('native argument')
            a, out, n, m = v
            f = self.record(I, st, 'fc_to_sc', a, [n, m])
            L = nmodes(n, m)
            self.write(I, st, out, f, L)
            return NONE
        return self.splitargs(I, st, args, go)

    def n_sc_to_fc(self, I, st, args, kw):
        def go(st, args):
            v = self.typed(I, st, args, kw, [2, 1, 'int', 'int'])
            if v is None:
                return I.unknown('native argument')
            out, a, n, m = v
            f = self.record(I, st, 'sc_to_fc', a, [n, m] + list(out.shape))
            I.setitem(st, out, TupleV([ALL, ALL]), I.mkarr(st, out.shape, f, 'complex128'))
            return NONE
        return self.splitargs(I, st, args, go)

    def write(self, I, st, out, f, L):
        if st.F.decide(eq(out.shape[0], L)) is True:
            g = f
        else:
            s = st.fork()
            g = lambda ix: ite(lt(ix[0], L), f(ix), I.arr_elem(s, out, ix))
        I.setitem(st, out, ALL, I.mkarr(st, out.shape, g, 'complex128'))


# -- parts of the kernels -------------------------------------------------------
def ynu(n_, m_, k_):
    """Fourier coefficient k of the spherical harmonic (n, m); 0 for k > n or |m| > n"""
    return from_atom(mk_atom('pyfn', ('ynu', num(n_), num(m_) * num(m_), num(k_)), 'real'))


def nextq(q, name='nextq2357'):
    return from_atom(mk_atom('pyfn', (name, num(q)), 'int'))


def py_ynunm(I, st, d):
    v = [I.as_num(x) for x in d.values()]
    if len(v) != 3 or None in v or any(x.ty not in ('int', 'npint') for x in v):
        return NotImplemented
    n_, m_, L = [x.t for x in v]
    if st.F.decide(c_or([lt(n_, L), lt(n_, T.abs_(m_))])) is not True or st.F.decide(le(ZERO, n_)) is not True:
        return NotImplemented
    return I.mkarr(st, [L], lambda ix: ynu(n_, m_, ix[0]), 'float64')


def py_nextq(I, st, d):
    v = [I.as_num(x) for x in d.values()]
    if len(v) != 1 or v[0] is None or v[0].ty not in ('int', 'npint') or st.F.decide(le(ONE, v[0].t)) is not True:
        return NotImplemented
    return NumV(nextq(v[0].t), 'int')
