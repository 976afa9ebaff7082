"""Abstract semantics of the library functions the project uses (builtins,
strings, files, numpy arrays with views, numpy functions)."""
import json as _json
import re as _re
from .core import *
from . import terms as T
from .loops import dt_sort, dt_join, DT, MAXUNROLL

EXC = None
HID = ('%rng', '%out', '%fs', '%clock')
CLOCKS = ('time.time', 'time.perf_counter', 'time.monotonic', 'time.process_time', 'time.time_ns', 'time.clock',
          'random.random', 'random.uniform', 'random.gauss', 'random.normalvariate', 'os.getpid', 'os.times')

TY2DT = {'bool': 'bool', 'int': 'int64', 'npint': 'int64', 'float': 'float64', 'npfloat': 'float64',
         'complex': 'complex128', 'npcomplex': 'complex128'}
DT2TY = {'bool': 'bool', 'int64': 'npint', 'float64': 'npfloat', 'complex128': 'npcomplex'}
DTNAMES = {'int': 'int64', 'float': 'float64', 'complex': 'complex128', 'bool': 'bool',
           'np.int64': 'int64', 'np.int32': 'int64', 'np.int_': 'int64', 'np.intp': 'int64',
           'np.float64': 'float64', 'np.double': 'float64', 'np.float_': 'float64',
           'np.complex128': 'complex128', 'np.complex_': 'complex128', 'np.cdouble': 'complex128',
           'np.bool_': 'bool', 'np.int': 'int64', 'np.float': 'float64', 'np.complex': 'complex128',
           'int64': 'int64', 'float64': 'float64', 'complex128': 'complex128', 'd': 'float64',
           'D': 'complex128', 'i': 'int64', 'float': 'float64'}

class SingleT(str):
    """a dtype of half the precision: like the double one, stored values are rounded"""


SINGLE = {k: SingleT('complex128') for k in ('np.complex64', 'np.csingle', 'complex64', 'F')}
SINGLE.update((k, SingleT('float64')) for k in ('np.float32', 'np.single', 'float32', 'f', 'np.float16', 'np.half'))
DTNAMES.update(SINGLE)


def is_single(d):
    return isinstance(d, SingleT)


def rnd32(x):
    if x.sort == 'int' and x.int_const() is not None and abs(x.int_const()) < 2 ** 24:
        return x
    if len(x.t) == 1 and list(x.t.values()) == [1]:
        m, = x.t
        if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == 'rnd' and m[0][0].args[1] == 'f32':
            return x
    return from_atom(mk_atom('rnd', (x, 'f32'), 'complex' if x.sort == 'complex' else 'real'))


NP_TYPES = ('complex128', 'float64', 'complex64', 'float32', 'csingle', 'single', 'double', 'int64', 'int32', 'intp', 'int_', 'float_', 'complex_',
            'cdouble', 'bool_')
NP_ABSTRACT = {'integer': ('npint',), 'floating': ('npfloat',), 'complexfloating': ('npcomplex',),
               'number': ('npint', 'npfloat', 'npcomplex'), 'generic': ('npint', 'npfloat', 'npcomplex'),
               'inexact': ('npfloat', 'npcomplex')}

ARR_METHODS = set('''copy reshape conj conjugate astype sum max min all any mean prod ravel flatten tolist
transpose item fill squeeze dot sort argmax argmin cumsum view round nonzero swapaxes std var tobytes
itemset setflags repeat take clip __repr__ __str__ __len__'''.split())

MAP1 = {}


def _def1(*names):
    def d(f):
        for n in names:
            MAP1[n] = f
        return f
    return d


@_def1('abs', 'absolute', 'fabs')
def _(x, dt):
    return T.abs_(x), ('float64' if dt in ('complex128', 'float64') else 'int64')


@_def1('sqrt')
def _(x, dt):
    return T.sqrt_(x), 'complex128' if dt == 'complex128' else 'float64'


@_def1('exp')
def _(x, dt):
    return T.exp_(x), 'complex128' if dt == 'complex128' else 'float64'


def _trig(name):
    def f(x, dt):
        if x.is_zero():
            return (ZERO if name in ('sin', 'tan') else ONE), dtf(dt)
        return T.fn(name, x), dtf(dt)
    return f


def dtf(dt):
    return 'complex128' if dt == 'complex128' else 'float64'


for _n in ('sin', 'cos', 'tan', 'log'):
    MAP1[_n] = _trig(_n)
for _n in ('log10', 'log2', 'log1p', 'expm1', 'arctan', 'arccos', 'arcsin', 'sinh', 'cosh', 'tanh', 'rad2deg',
           'deg2rad', 'isnan', 'isinf', 'isfinite', 'spacing', 'cbrt', 'i0', 'sinc'):
    MAP1[_n] = (lambda n: lambda x, dt: (T.fn('np' + n, x), dtf(dt)))(_n)


@_def1('conj', 'conjugate')
def _(x, dt):
    return (T.conj_(x), dt) if dt == 'complex128' else (x, dt)


@_def1('real')
def _(x, dt):
    return T.re_im(x)[0], 'float64' if dt == 'complex128' else dt


@_def1('imag')
def _(x, dt):
    return T.re_im(x)[1], 'float64' if dt == 'complex128' else dt


@_def1('square')
def _(x, dt):
    return x * x, dt


@_def1('negative')
def _(x, dt):
    return -x, dt


@_def1('positive')
def _(x, dt):
    return x, dt


@_def1('floor')
def _(x, dt):
    from .pyint import floor_
    return floor_(x), 'float64'


@_def1('ceil')
def _(x, dt):
    from .pyint import floor_
    return -floor_(-x), 'float64'


@_def1('trunc', 'fix')
def _(x, dt):
    return trunc_(x), 'float64'


@_def1('sign')
def _(x, dt):
    return ite(lt(ZERO, x), ONE, ite(lt(x, ZERO), num(-1), ZERO)), dt


def trunc_(x, F=None):
    from .pyint import floor_
    if x.sort == 'int':
        return x
    if F is not None:
        r = F.decide(le(ZERO, x))
        if r is True:
            return floor_(x)
        if r is False:
            return -floor_(-x)
    c = x.const()
    if c is not None:
        return num(int(c))
    return ite(le(ZERO, x), floor_(x), -floor_(-x))


UF2 = {'add': 'Add', 'subtract': 'Sub', 'multiply': 'Mult', 'divide': 'Div', 'true_divide': 'Div',
       'power': 'Pow', 'mod': 'Mod', 'remainder': 'Mod', 'floor_divide': 'FloorDiv', 'float_power': 'Pow'}
CMP2 = {'equal': 'Eq', 'not_equal': 'NotEq', 'less': 'Lt', 'less_equal': 'LtE', 'greater': 'Gt',
        'greater_equal': 'GtE'}


def contig_(shape):
    return True


class NpMixin(object):
    # ------------------------------------------------------------------ small helpers
    def hid(self, st):
        for h in HID:
            if h not in st.heap:
                st.heap[h] = FileRec() if h == '%out' else DictRec('frame')
        if 'k' not in st.heap['%rng'].d:
            st.mut('%rng').d['k'] = NumV(ZERO, 'int')
        if 'k' not in st.heap['%clock'].d:
            st.mut('%clock').d['k'] = NumV(ZERO, 'int')

    def clock(self, st, name):
        """a different unknown number at every reading"""
        self.hid(st)
        k = st.get('%clock').d['k'].t
        st.mut('%clock').d['k'] = NumV(k + 1, 'int')
        ty = 'int' if name in ('time.time_ns', 'os.getpid') else 'float'
        so = 'int' if ty == 'int' else 'real'
        return NumV(sel(mk_atom('sym', ('%' + name, 'arr', so), so), [k], so), ty)

    def terr(self, st, msg=''):
        self.do_raise(st, ExcV('TypeError', [StrV(msg)]))

    def verr(self, st, msg=''):
        self.do_raise(st, ExcV('ValueError', [StrV(msg)]))

    def dtype_of(self, v):
        """dtype name from a dtype argument, None if not given, '?' unknown"""
        if v is None or isinstance(v, NoneT):
            return None
        if isinstance(v, (TypeV, BuiltinV)):
            return DTNAMES.get(v.name, '?')
        if isinstance(v, StrV) and v.const() is not None:
            return DTNAMES.get(v.const(), '?')
        return '?'

    def mkarr(self, st, shape, fn, dtype, origin='new', extra=None):
        """new buffer with content fn(list of Num) -> Num"""
        ps = [fresh_atom('p') for _ in shape]
        body = fn([from_atom(p) for p in ps])
        if is_single(dtype):
            body, dtype, extra = rnd32(body), str(dtype), ('single',)
        b = st.new('buf', BufRec(shape, mk_lam(ps, body), dtype, origin, extra))
        return ArrV(b, PVT[:len(shape)], shape, dtype, True)

    def single(self, st, v):
        return isinstance(v, ArrV) and st.get(v.buf).extra == ('single',)

    def arr_elem(self, st, v, idx):
        r = st.get(v.buf)
        t = r.content(*v.index(idx))
        if T.JUNK_ATOM in num_syms(t):
            t = st.F.simp(t)
        return t

    def arr_lam(self, st, v):
        r = st.get(v.buf)
        if v.imap == tuple(PVT[:len(r.shape)]):
            return r.content
        ps = [fresh_atom('p') for _ in v.shape]
        return mk_lam(ps, r.content(*v.index([from_atom(p) for p in ps])))

    def scalar(self, t, dtype):
        if dtype == 'bool':
            return BoolV(ne(t, ZERO), True)
        return NumV(t, DT2TY.get(dtype, 'npcomplex'))

    # anything array-like -> (shape tuple, dtype, fn(idx list)->Num) or None
    def arrlike(self, st, v):
        n = self.as_num(v)
        if n is not None:
            return (), TY2DT[n.ty], lambda ix: n.t
        if isinstance(v, ArrV):
            S = st.fork()
            return v.shape, v.dtype, lambda ix: self.arr_elem(S, v, ix)
        if isinstance(v, RangeV):
            n = self.range_len(st, v)
            if n is None:
                return None
            return (n,), 'int64', lambda ix: v.lo + v.step * ix[0]
        segs = None
        if isinstance(v, TupleV):
            segs = [('one', x) for x in v.items]
        elif isinstance(v, Ref):
            r = st.get(v.id)
            if isinstance(r, ListRec) and r.kind == 'list':
                segs = r.segs
        elif isinstance(v, IterV):
            xs = self.const_items(st, v)
            if xs is not None and v.kind in ('map', 'zip', 'enumerate'):
                return None
        if segs is None:
            return None
        if not segs:
            return (ZERO,), 'float64', lambda ix: ZERO
        return self.segs_arr(st, segs)

    def segs_arr(self, st, segs):
        from .pyint import self_subst_seg
        # sample the element structure
        parts = []          # (count Num, shape, dtype, fn(rel, ix))
        for s in segs:
            if s[0] == 'one':
                e = self.arrlike(st, s[1])
                if e is None:
                    if isinstance(s[1], PhiV):
                        e = self.phi_arr(st, s[1])
                    if e is None:
                        return None
                parts.append((ONE, e[0], e[1], (lambda e: lambda rel, ix: e[2](ix))(e)))
            elif s[0] == 'rep':
                q = fresh_atom('q')
                s2 = st.fork(le(ZERO, from_atom(q)), lt(from_atom(q), s[1]))
                sub = [self_subst_seg(s2, x, {s[2]: from_atom(q)}) for x in s[3]]
                e = self.segs_arr(s2, sub)
                if e is None:
                    return None
                k = e[0][0]
                if k.int_const() is None or any(q in num_syms(d) for d in e[0][1:]):
                    return None

                def fn(rel, ix, e=e, q=q, k=k):
                    if k.int_const() == 1:
                        it, r = rel, ZERO
                    else:
                        it, r = T.fdiv(rel, k), T.mod_(rel, k)
                    # element terms mention q symbolically
                    z = fresh_atom('z')
                    body = e[2]([from_atom(z)] + list(ix))
                    return subst(subst(body, {q: it}), {z: r})
                parts.append((s[1] * k, e[0][1:], e[1], fn))
            else:
                return None
        sh = parts[0][1]
        dt = parts[0][2]
        for p in parts[1:]:
            if len(p[1]) != len(sh):
                return None
            for x, y in zip(sh, p[1]):
                if x != y and st.F.decide(eq(x, y)) is not True:
                    return None
            dt = dt_join(dt, p[2])
        total = ZERO
        for p in parts:
            total = total + p[0]

        def get(ix):
            t, rest = ix[0], ix[1:]
            off = ZERO
            offs = []
            for p in parts:
                offs.append(off)
                off = off + p[0]
            c = t.int_const()
            if c is not None and all(o.int_const() is not None for o in offs) and \
                    all(p[0].int_const() is not None for p in parts):
                for o, p in zip(offs, parts):
                    if o.int_const() <= c < o.int_const() + p[0].int_const():
                        return p[3](t - o, rest)
            v = parts[-1][3](t - offs[-1], rest)
            for o, p in reversed(list(zip(offs, parts))[:-1]):
                v = ite(eq(t, o) if p[0].int_const() == 1 else lt(t, o + p[0]), p[3](t - o, rest), v)
            return v
        return (st.F.simp(total),) + tuple(sh), dt, get

    def phi_arr(self, st, v):
        if not isinstance(v, PhiV):
            return self.arrlike(st, v)
        a, b = self.phi_arr(st, v.a), self.phi_arr(st, v.b)
        if a is None or b is None or len(a[0]) != len(b[0]):
            return None
        sh = [ite(v.c, x, y) for x, y in zip(a[0], b[0])]
        return sh, dt_join(a[1], b[1]), lambda ix: ite(v.c, a[2](ix), b[2](ix))

    def to_arr(self, st, v, dtype=None, origin='new', copy=True):
        """array from array-like (numpy.array semantics, 0-d become scalars)"""
        if isinstance(v, ArrV) and not copy and (dtype is None or dtype == v.dtype and is_single(dtype) == self.single(st, v)):
            return v
        e = self.arrlike(st, v)
        if e is None:
            return None
        sh, dt, f = e
        if dtype is None and self.single(st, v):
            dtype = SingleT(dt)
        if dtype is not None and (dtype != dt or is_single(dtype)):
            f = self.conv(f, dt, dtype)
            dt = dtype
        if not sh:
            return self.scalar(rnd32(f([])), str(dt)) if is_single(dt) else self.scalar(f([]), dt)
        return self.mkarr(st, sh, f, dt, origin)

    def conv(self, f, dt, to):
        if to == dt or DT.index(to) >= DT.index(dt):
            return f
        if to == 'float64':
            return lambda ix: T.re_im(f(ix))[0]
        if to == 'int64':
            return lambda ix: trunc_(T.re_im(f(ix))[0])
        if to == 'bool':
            return lambda ix: ite(eq(f(ix), ZERO), ZERO, ONE)
        return f

    # ------------------------------------------------------------------ broadcasting
    def bcast(self, st, shapes):
        """-> (shape, [index adaptors])"""
        n = max(len(s) for s in shapes)
        shape = []
        maps = [[] for _ in shapes]
        for d in range(n):
            ds = []
            for s in shapes:
                k = d - (n - len(s))
                ds.append(s[k] if k >= 0 else None)
            cur = None
            for x in ds:
                if x is None:
                    continue
                if cur is None:
                    cur = x
                    continue
                if cur == x:
                    continue
                if x.int_const() == 1:
                    continue
                if cur.int_const() == 1:
                    cur = x
                    continue
                if st.F.decide(eq(cur, x)) is True:
                    continue
                ok = c_or([eq(cur, x), eq(cur, ONE), eq(x, ONE)])
                self.raise_if(st, c_not(ok), 'ValueError', StrV('operands could not be broadcast together'))
                cur = ite(st.F.reduce(eq(cur, ONE)), x, cur)
            shape.append(cur)
            for j, x in enumerate(ds):
                if x is None:
                    continue
                if x.int_const() == 1 and cur.int_const() != 1:
                    maps[j].append(('z', d))
                elif x == cur or st.F.decide(eq(x, cur)) is True:
                    maps[j].append(('p', d))
                else:
                    maps[j].append(('c', d, st.F.reduce(eq(x, ONE))))

        def ad(m):
            def f(ix):
                out = []
                for e in m:
                    if e[0] == 'z':
                        out.append(ZERO)
                    elif e[0] == 'p':
                        out.append(ix[e[1]])
                    else:
                        out.append(ite(e[2], ZERO, ix[e[1]]))
                return out
            return f
        return tuple(shape), [ad(m) for m in maps]

    def elementwise(self, st, vs, fn, dtfn):
        """fn(list of Num)->Num on broadcast array-likes"""
        es = []
        for v in vs:
            e = self.arrlike(st, v)
            if e is None:
                return self.unknown('array operand')
            es.append(e)
        dt = dtfn([e[1] for e in es])
        if any(self.single(st, v) for v in vs) and all(self.single(st, v) or not isinstance(v, ArrV) for v in vs):
            return self.unknown('single precision arithmetic')
        if all(len(e[0]) == 0 for e in es):
            return self.scalar(fn([e[2]([]) for e in es]), dt)
        shape, ads = self.bcast(st, [e[0] for e in es])
        return self.mkarr(st, shape, lambda ix: fn([e[2](a(ix)) for e, a in zip(es, ads)]), dt)

    def arr_map(self, st, f, v, dt=None):
        if self.single(st, v):
            return self.unknown('single precision arithmetic')
        return self.mkarr(st, v.shape, lambda ix: f(self.arr_elem(st, v, ix)), dt or v.dtype)

    def arr_binop(self, st, op, a, b):
        if isinstance(a, ArrV) and isinstance(b, Ref) and st.get(b.id).kind == 'obj' or \
                isinstance(b, ArrV) and isinstance(a, Ref) and st.get(a.id).kind == 'obj':
            return self.unknown('array with object')
        if isinstance(a, (StrV, NoneT, FuncV, ClassV)) or isinstance(b, (StrV, NoneT, FuncV, ClassV)):
            self.terr(st, 'unsupported operand')
        fn, dtf_ = self.opfn(st, op)
        if fn is None:
            return self.unknown('array operator ' + op)
        return self.elementwise(st, [a, b], lambda x: fn(x[0], x[1]), lambda d: dtf_(d[0], d[1]))

    def opfn(self, st, op):
        from .pyint import floor_
        j = lambda a, b: dt_join(dt_join(a, b), 'int64')
        if op == 'Add':
            return (lambda x, y: x + y), j
        if op == 'Sub':
            return (lambda x, y: x - y), j
        if op == 'Mult':
            return (lambda x, y: x * y), j

        def div(x, y):
            if y.is_zero():
                return from_atom(mk_atom('divzero', (x,), 'real'))
            return x / y
        if op == 'Div':
            return div, lambda a, b: dt_join(dt_join(a, b), 'float64')
        if op == 'Pow':
            def pw(x, y):
                r = self.pow_term(st, x, y)
                return r if r is not None else unk('power')
            return pw, j
        if op == 'Mod':
            def md(x, y):
                if y.is_zero():
                    return unk('mod')
                if x.sort == 'int' and y.sort == 'int':
                    return T.mod_(x, y)
                return x - y * floor_(x / y)
            return md, j
        if op == 'FloorDiv':
            def fd(x, y):
                if y.is_zero():
                    return unk('floordiv')
                if x.sort == 'int' and y.sort == 'int':
                    return T.fdiv(x, y)
                return floor_(x / y)
            return fd, j
        if op in ('BitAnd', 'BitOr'):
            if op == 'BitAnd':
                return (lambda x, y: x * y), lambda a, b: 'bool'
            return (lambda x, y: ite(c_and([eq(x, ZERO), eq(y, ZERO)]), ZERO, ONE)), lambda a, b: 'bool'
        return None, None

    def arr_compare(self, st, op, a, b):
        if isinstance(a, (StrV, NoneT)) or isinstance(b, (StrV, NoneT)):
            return UnkV('array compare')

        def f(x):
            p, q = x
            if op == 'Eq':
                c = eq(p, q)
            elif op == 'NotEq':
                c = ne(p, q)
            elif op == 'Lt':
                c = lt(p, q)
            elif op == 'LtE':
                c = le(p, q)
            elif op == 'Gt':
                c = lt(q, p)
            else:
                c = le(q, p)
            return ite(c, ONE, ZERO)
        return self.elementwise(st, [a, b], f, lambda d: 'bool')

    def arr_inplace(self, st, op, a, b):
        fn, dtf_ = self.opfn(st, op)
        e = self.arrlike(st, b)
        if fn is None or e is None:
            self.clobber(st, a)
            return self.unknown('array in-place')
        res = dtf_(a.dtype, e[1])
        if DT.index(res) > DT.index(a.dtype):
            self.do_raise(st, ExcV('TypeError', [StrV('cannot cast ufunc output')]))
        r = self.elementwise(st, [a, b], lambda x: fn(x[0], x[1]), lambda d: dtf_(d[0], d[1]))
        self.arr_write(st, a, r)
        return a

    def clobber(self, st, a):
        r = st.mut(a.buf)
        ps = [fresh_atom('p') for _ in r.shape]
        nm = mk_atom('sym', (fresh_name('%clob'), 'arr', dt_sort(r.dtype)), dt_sort(r.dtype), True)
        r.content = mk_lam(ps, sel(nm, [from_atom(p) for p in ps], dt_sort(r.dtype)))

    # ------------------------------------------------------------------ attributes
    def arr_attr(self, st, o, name):
        if name == 'shape':
            return TupleV([NumV(x, 'int') for x in o.shape])
        if name == 'size':
            n = ONE
            for x in o.shape:
                n = n * x
            return NumV(n, 'int')
        if name == 'ndim':
            return NumV(num(len(o.shape)), 'int')
        if name == 'T':
            return self.transpose(o, list(reversed(range(len(o.shape)))))
        if name in ('real', 'imag'):
            if o.dtype != 'complex128':
                if name == 'real':
                    return o
                return self.arr_map(st, lambda x: ZERO, o)
            k = 0 if name == 'real' else 1
            return self.arr_map(st, lambda x: T.re_im(x)[k], o, 'float64')
        if name == 'dtype':
            return BuiltinV('np.' + o.dtype)
        if name == 'base':
            return NONE
        if name in ('flat',):
            return self.reshape(st, o, [NumV(num(-1), 'int')])
        if name in ('flags', 'strides', 'nbytes', 'itemsize', 'ctypes', 'data'):
            return UnkV('array attribute ' + name)
        if name in ARR_METHODS:
            return Bound(BuiltinV(name), o)
        return None

    def transpose(self, o, perm):
        inv = dict((p, k) for k, p in enumerate(perm))
        mp = dict((PV[d], PVT[inv[d]]) for d in range(len(perm)))
        return ArrV(o.buf, [subst(e, mp) for e in o.imap], [o.shape[p] for p in perm], o.dtype,
                    o.contig if perm == sorted(perm) else False)

    # ------------------------------------------------------------------ indexing
    def norm_slice(self, st, s, n):
        """-> (start, length, step const) or None"""
        F = st.F
        for x in (s.start, s.stop, s.step):
            if not isinstance(x, (NoneT, NumV, BoolV)):
                if isinstance(x, UnkV):
                    return None
                self.terr(st, 'slice indices must be integers')
            if isinstance(x, NumV) and x.ty not in ('int', 'npint', 'bool'):
                self.terr(st, 'slice indices must be integers')
        step = 1
        if not isinstance(s.step, NoneT):
            step = F.simp(self.as_num(s.step).t).int_const()
            if step is None:
                return None
            if step == 0:
                self.verr(st, 'slice step cannot be zero')

        def clamp(x, lo, hi, neg):
            """value of bound x; neg: value when still negative after shift"""
            t = F.simp(self.as_num(x).t)
            r = F.decide(le(ZERO, t))
            if r is True:
                y = t
            elif r is False:
                y = F.simp(t + n)
                if F.decide(le(ZERO, y)) is not True:
                    y = ite(F.reduce(lt(y, ZERO)), neg, y)
            else:
                y = ite(lt(t, ZERO), ite(F.reduce(lt(t + n, ZERO)), neg, t + n), t)
            if F.decide(le(y, hi)) is True:
                return y
            return ite(F.reduce(le(y, hi)), y, hi)
        if step > 0:
            a = ZERO if isinstance(s.start, NoneT) else clamp(s.start, ZERO, n, ZERO)
            b = n if isinstance(s.stop, NoneT) else clamp(s.stop, ZERO, n, ZERO)
            d = F.simp(b - a)
        else:
            a = n - 1 if isinstance(s.start, NoneT) else clamp(s.start, ZERO, n - 1, num(-1))
            b = num(-1) if isinstance(s.stop, NoneT) else clamp(s.stop, ZERO, n - 1, num(-1))
            d = F.simp(a - b)
        k = step if step > 0 else -step
        ln = d if k == 1 else T.fdiv(d + (k - 1), num(k))
        r = F.decide(le(ZERO, d))
        if r is False:
            ln = ZERO
        elif r is None:
            ln = ite(le(ZERO, d), ln, ZERO)
        return F.simp(a), F.simp(ln), step

    def arr_view(self, st, o, i):
        """basic indexing -> (ArrV view, is_scalar) or None when unsupported"""
        items = list(i.items) if isinstance(i, TupleV) else [i]
        nd = len(o.shape)
        used = sum(1 for x in items if not isinstance(x, (NoneT, EllipsisT)))
        if used > nd:
            self.do_raise(st, ExcV('IndexError', [StrV('too many indices for array')]))
        ell = [k for k, x in enumerate(items) if isinstance(x, EllipsisT)]
        fill = [SliceV(NONE, NONE, NONE)] * (nd - used)
        if ell:
            items = items[:ell[0]] + fill + items[ell[0] + 1:]
        else:
            items = items + fill
        mp = {}
        shape = []
        d = 0
        partial = False
        contig = o.contig
        seen_slice = False
        for x in items:
            if isinstance(x, NoneT):
                shape.append(ONE)
                continue
            n = o.shape[d]
            if isinstance(x, SliceV):
                r = self.norm_slice(st, x, n)
                if r is None:
                    return None
                a, ln, step = r
                mp[PV[d]] = a + PVT[len(shape)].scale(step)
                if not (a.is_zero() and step == 1 and (ln == n or st.F.decide(eq(ln, n)) is True)):
                    if step != 1 or seen_slice:
                        contig = False
                seen_slice = True
                shape.append(ln)
            else:
                iv = self.as_num(x)
                if iv is None or iv.ty == 'bool':
                    return None
                if iv.ty not in ('int', 'npint'):
                    self.do_raise(st, ExcV('IndexError', [StrV('only integers, slices ... are valid indices')]))
                t = st.F.simp(iv.t)
                self.raise_if(st, c_not(c_and([le(-n, t), lt(t, n)])), 'IndexError',
                              StrV('index out of bounds'))
                from .pyint import norm_index
                mp[PV[d]] = norm_index(st, t, n)
                if seen_slice:
                    contig = False
            d += 1
        imap = [subst(e, mp) for e in o.imap]
        return ArrV(o.buf, imap, shape, o.dtype, contig), not shape

    def arr_getitem(self, st, o, i):
        if isinstance(i, TupleV) and any(isinstance(x, PhiV) for x in i.items):
            k = [isinstance(x, PhiV) for x in i.items].index(True)
            return self.on(st, i.items[k], lambda s, x: self.arr_getitem(
                s, o, TupleV(i.items[:k] + (x,) + i.items[k + 1:])))
        if isinstance(i, PhiV):
            return self.on(st, i, lambda s, x: self.arr_getitem(s, o, x))
        if isinstance(i, UnkV) or isinstance(i, TupleV) and any(isinstance(x, UnkV) for x in i.items):
            return self.unknown('array index')
        if isinstance(i, (StrV, FuncV)) or isinstance(i, TupleV) and any(isinstance(x, StrV) for x in i.items):
            self.do_raise(st, ExcV('IndexError', [StrV('invalid index')]))
        r = None
        simple = lambda x: isinstance(x, (NumV, SliceV, NoneT, EllipsisT))
        if simple(i) or isinstance(i, TupleV) and all(simple(x) for x in i.items):
            r = self.arr_view(st, o, i)
        if r is None:
            return self.fancy_get(st, o, i)
        v, sc = r
        if sc:
            return self.scalar(self.arr_elem(st, v, []), o.dtype)
        return v

    def fancy_get(self, st, o, i):
        # integer gather along axes: all index positions array-like of integers or scalars
        items = list(i.items) if isinstance(i, TupleV) else [i]
        es = []
        for x in items:
            if isinstance(x, (SliceV, NoneT, EllipsisT)):
                break
            e = self.arrlike(st, x)
            if e is None or e[1] != 'int64':
                break
            es.append(e)
        if len(es) == len(items) and es and len(es) <= len(o.shape):
            shape, ads = self.bcast(st, [e[0] for e in es])
            rest = o.shape[len(es):]

            def f(ix):
                hd, tl = ix[:len(shape)], ix[len(shape):]
                idx = []
                for d, (e, a) in enumerate(zip(es, ads)):
                    t = st.F.simp(e[2](a(hd)))
                    n = o.shape[d]
                    r = st.F.decide(le(ZERO, t))
                    idx.append(t if r is True else ite(lt(t, ZERO), t + n, t))
                return self.arr_elem(st, o, idx + tl)
            # bounds: the gather must stay inside
            ps = [fresh_atom('g') for _ in shape]
            s2 = st.fork(*[c_and([le(ZERO, from_atom(p)), lt(from_atom(p), n)]) for p, n in zip(ps, shape)])
            for d, (e, a) in enumerate(zip(es, ads)):
                t = e[2](a([from_atom(p) for p in ps]))
                ok = c_and([le(-o.shape[d], t), lt(t, o.shape[d])])
                if s2.F.decide(ok) is not True:
                    self.unknown('gather bounds')
            return self.mkarr(st, tuple(shape) + tuple(rest), f, o.dtype)
        return self.unknown('fancy index')

    def arr_setitem(self, st, o, i, v):
        if isinstance(i, TupleV) and any(isinstance(x, PhiV) for x in i.items):
            k = [isinstance(x, PhiV) for x in i.items].index(True)
            self.on(st, i.items[k], lambda s, x: self.arr_setitem(
                s, o, TupleV(i.items[:k] + (x,) + i.items[k + 1:]), v))
            return
        if isinstance(i, PhiV):
            self.on(st, i, lambda s, x: self.arr_setitem(s, o, x, v))
            return
        if isinstance(v, PhiV):
            self.on(st, v, lambda s, x: self.arr_setitem(s, o, i, x))
            return
        simple = lambda x: isinstance(x, (NumV, SliceV, NoneT, EllipsisT))
        r = None
        if simple(i) or isinstance(i, TupleV) and all(simple(x) for x in i.items):
            r = self.arr_view(st, o, i)
        if r is None:
            if isinstance(i, ArrV) and i.dtype == 'bool' and len(i.shape) == len(o.shape):
                n = self.as_num(v)
                if n is not None:
                    m = self.arr_lam(st, i)
                    S = st.fork()
                    res = self.mkarr(st, o.shape, lambda ix: ite(ne(m(*ix), ZERO), n.t,
                                                               self.arr_elem(S, o, ix)), o.dtype)
                    self.arr_write(st, o, res)
                    return
            self.unknown('fancy store')
            self.clobber(st, o)
            return
        view, sc = r
        if sc:
            n = self.as_num(v)
            if n is None:
                if isinstance(v, UnkV):
                    self.unknown('stored value')
                    n = NumV(unk('stored value'))
                elif isinstance(v, ArrV):
                    one = c_and([eq(x, ONE) for x in v.shape])
                    self.raise_if(st, c_not(one), 'ValueError', StrV('setting an array element with a sequence.'))
                    n = NumV(self.arr_elem(st, v, [ZERO] * len(v.shape)))
                elif isinstance(v, (Ref, TupleV)):
                    self.do_raise(st, ExcV('ValueError', [StrV('setting an array element with a sequence.')]))
                elif isinstance(v, StrV):
                    self.do_raise(st, ExcV('ValueError', [StrV('could not convert string')]))
                else:
                    self.do_raise(st, ExcV('TypeError', [StrV('float() argument')]))
            t = n.t
            if n.ty in ('complex', 'npcomplex') and view.dtype in ('float64', 'int64'):
                if n.ty == 'complex':
                    self.terr(st, "can't convert complex to float")
                t = T.re_im(t)[0]
            if view.dtype == 'int64':
                t = trunc_(t, st.F)
            if self.single(st, view):
                t = rnd32(t)
            self.write_lam(st, view, lambda ix: t)
            return
        self.arr_write(st, view, v)

    def arr_write(self, st, view, v):
        e = self.arrlike(st, v)
        if e is None:
            if isinstance(v, (NoneT, StrV, FuncV)):
                self.do_raise(st, ExcV('TypeError', [StrV('float() argument must be')]))
            self.unknown('stored array value')
            self.clobber(st, view)
            return
        sh, dt, f = e
        # value must broadcast to the view's shape
        sh = list(sh)
        while len(sh) > len(view.shape):
            self.raise_if(st, ne(sh[0], ONE), 'ValueError', StrV('could not broadcast input array'))
            sh = sh[1:]
            f = (lambda g: lambda ix: g([ZERO] + list(ix)))(f)
        off = len(view.shape) - len(sh)
        ad = []
        for k, x in enumerate(sh):
            y = view.shape[off + k]
            if x == y or st.F.decide(eq(x, y)) is True:
                ad.append(None)
            elif x.int_const() == 1:
                ad.append(TRUE)
            else:
                self.raise_if(st, c_not(c_or([eq(x, y), eq(x, ONE)])), 'ValueError',
                              StrV('could not broadcast input array'))
                c = st.F.reduce(c_and([eq(x, ONE), ne(x, y)]))
                ad.append(c)

        def g(ix):
            return f([i if c is None else ite(c, ZERO, i) for i, c in zip(ix[off:], ad)])
        if DT.index(dt) > DT.index(view.dtype):
            g0 = self.conv(g, dt, view.dtype)
        else:
            g0 = g
        if self.single(st, view):
            self.write_lam(st, view, lambda ix: rnd32(g0(ix)))
            return
        self.write_lam(st, view, g0)

    def write_lam(self, st, view, g):
        """store g(view index) through the view"""
        rec = st.get(view.buf)
        nb = len(rec.shape)
        qs = [fresh_atom('p') for _ in range(nb)]
        qv = [from_atom(q) for q in qs]
        sol = {}
        left = list(range(nb))
        conds = []
        for k in range(len(view.shape)):
            found = False
            if view.shape[k].int_const() == 1 and not any(PV[k] in num_syms(e) for e in view.imap):
                sol[k] = ZERO
                continue
            for d in left:
                e = view.imap[d]
                a = lin_coef(e, PV[k])
                if not a:
                    continue
                rest = e - PVT[k].scale(a)
                if any(p in num_syms(rest) for p in PV[:len(view.shape)]):
                    continue
                x = qv[d] - rest
                if abs(a) != 1:
                    conds.append(eq(T.mod_(x.scale(1 if a > 0 else -1), num(abs(a))), ZERO))
                    x = T.fdiv(x.scale(1 if a > 0 else -1), num(abs(a)))
                else:
                    x = x.scale(div(1, a))
                sol[k] = x
                left.remove(d)
                found = True
                break
            if not found:
                # a dimension of length one never moves
                if st.F.decide(le(view.shape[k], ONE)) is True:
                    sol[k] = ZERO
                    continue
                self.unknown('store through view')
                self.clobber(st, view)
                return
        full = st.F
        inb = [c for p, n in zip(qv, rec.shape) for c in (le(ZERO, p), lt(p, n))]
        mp = dict((PV[k], sol[k]) for k in sol)
        for d in left:
            conds.append(eq(qv[d], subst(view.imap[d], mp)))
        for k in range(len(view.shape)):
            conds.append(le(ZERO, sol[k]))
            conds.append(lt(sol[k], view.shape[k]))
        Fb = full.add(*inb)
        c = Fb.reduce(c_and(conds))
        val = g([sol[k] for k in range(len(view.shape))])
        old = rec.content(*qv)
        r = st.mut(view.buf)
        r.content = mk_lam(qs, ite(c, val, old))

    # ------------------------------------------------------------------ reshape etc
    def int_of(self, st, v):
        n = self.as_num(v)
        if n is None or n.t.sort != 'int' or n.ty not in ('int', 'npint', 'bool'):
            return None
        return n.t

    def shape_arg(self, st, v):
        """shape argument -> list of Num (raises TypeError for non integers)"""
        n = self.as_num(v)
        if n is not None:
            if n.ty not in ('int', 'npint', 'bool'):
                self.terr(st, "'float' object cannot be interpreted as an integer")
            return [n.t]
        if isinstance(v, ArrV):
            k = v.shape[0].int_const()
            if k is None:
                return None
            return [self.arr_elem(st, v, [num(j)]) for j in range(k)]
        xs = self.const_items(st, v)
        if xs is None:
            return None
        out = []
        for x in xs:
            n = self.as_num(x)
            if n is None:
                return None
            if n.ty not in ('int', 'npint', 'bool'):
                self.terr(st, "'float' object cannot be interpreted as an integer")
            out.append(n.t)
        return out

    def nonneg_shape(self, st, sh):
        for x in sh:
            if st.F.decide(le(ZERO, x)) is not True:
                self.raise_if(st, lt(x, ZERO), 'ValueError', StrV('negative dimensions are not allowed'))

    def reshape(self, st, o, args):
        if len(args) == 1 and not isinstance(args[0], NumV):
            sh = self.shape_arg(st, args[0])
        else:
            sh = [self.int_of(st, a) for a in args]
        if sh is None or any(x is None for x in sh):
            return self.unknown('reshape')
        tot = ONE
        for x in o.shape:
            tot = tot * x
        neg = [k for k, x in enumerate(sh) if x.int_const() == -1]
        rest = ONE
        for k, x in enumerate(sh):
            if k not in neg:
                rest = rest * x
        if neg:
            if rest == ONE:
                sh[neg[0]] = tot
            elif len(tot.t) == 1 and len(rest.t) == 1 and (tot / rest).sort == 'int':
                sh[neg[0]] = tot / rest
            else:
                sh[neg[0]] = T.fdiv(tot, rest)
        else:
            self.raise_if(st, ne(rest, tot), 'ValueError', StrV('cannot reshape array'))
        # row-major linear index
        lin = ZERO
        for k, x in enumerate(sh):
            lin = lin * x + PVT[k]
        if len(o.shape) == 1:
            old = [lin]
        else:
            if list(o.shape) == sh:
                old = list(PVT[:len(sh)])
            elif len(sh) == 1 and len(o.shape) == 2:
                old = [T.fdiv(PVT[0], o.shape[1]), T.mod_(PVT[0], o.shape[1])]
            else:
                old = []
                rem = lin
                for k in range(len(o.shape) - 1, 0, -1):
                    old.insert(0, T.mod_(rem, o.shape[k]))
                    rem = T.fdiv(rem, o.shape[k])
                old.insert(0, rem)
        if o.contig:
            mp = dict((PV[k], e) for k, e in enumerate(old))
            return ArrV(o.buf, [subst(e, mp) for e in o.imap], sh, o.dtype, True)

        def f(ix):
            mp = dict((PV[k], x) for k, x in enumerate(ix))
            return self.arr_elem(st, o, [subst(e, mp) for e in old])
        return self.mkarr(st, sh, f, o.dtype)

    # ------------------------------------------------------------------ reductions
    def red_sum(self, st, v, axis=None, kind='sum'):
        e = self.arrlike(st, v)
        if e is None:
            return self.unknown('sum argument')
        sh, dt, f = e
        if not sh:
            return self.scalar(f([]), dt_join(dt, 'int64'))
        if isinstance(v, ArrV) and kind == 'sum':
            ex = st.get(v.buf).extra
            if ex and ex[0] == 'perm' and v.imap == tuple(PVT[:len(sh)]) and tuple(v.shape) == tuple(st.get(v.buf).shape):
                f = lambda ix: ex[1](*ix)
        mk = mk_sum if kind == 'sum' else mk_prod
        dt = dt_join(dt, 'int64')

        def total(hd, dims, tail_fn):
            ps = [fresh_atom('s') for _ in dims]
            body = tail_fn([from_atom(p) for p in ps])
            F = st.F.add(*[c for p, n in zip(ps, dims) for c in (le(ZERO, from_atom(p)), lt(from_atom(p), n))])
            body = F.simp(body)
            for p, n in reversed(list(zip(ps, dims))):
                body = mk(p, ZERO, n - 1, body)
            return body
        if axis is None:
            return self.scalar(total([], list(sh), f), dt)
        if axis < 0:
            axis += len(sh)
        if not (0 <= axis < len(sh)):
            self.do_raise(st, ExcV('AxisError'))
        out = [x for k, x in enumerate(sh) if k != axis]
        g = lambda ix: total([], [sh[axis]], lambda p: f(list(ix[:axis]) + p + list(ix[axis:])))
        if not out:
            return self.scalar(g([]), dt)
        return self.mkarr(st, out, g, dt)

    def red_max(self, st, v, kind, axis=None):
        e = self.arrlike(st, v)
        if e is None:
            return self.unknown('max argument')
        sh, dt, f = e
        if not sh:
            return self.scalar(f([]), dt)
        self.raise_if(st, c_or([eq(x, ZERO) for x in sh]), 'ValueError', StrV('zero-size array to reduction operation'))
        knd, sort = (kind, 'real') if dt != 'complex128' else ('c' + kind, 'complex')

        def total(dims, g):
            ps = [fresh_atom('s') for _ in dims]
            body = g([from_atom(p) for p in ps])
            init = ZERO if kind == 'maxf' and dt != 'complex128' and _nonneg_t(body) else g([ZERO] * len(dims))
            for p, n in reversed(list(zip(ps, dims))):
                body = from_atom(mk_atom(knd, (n - 1, mk_lam([p], body), init), sort))
            return body
        if axis is None:
            return self.scalar(total(list(sh), f), dt)
        if axis < 0:
            axis += len(sh)
        if not (0 <= axis < len(sh)):
            self.do_raise(st, ExcV('AxisError'))
        out = [x for k, x in enumerate(sh) if k != axis]
        g = lambda ix: total([sh[axis]], lambda p: f(list(ix[:axis]) + p + list(ix[axis:])))
        if not out:
            return self.scalar(g([]), dt)
        return self.mkarr(st, out, g, dt)

    # ------------------------------------------------------------------ fft
    def fft(self, st, v, nd, sign, args, kw):
        if args or kw:
            return self.unknown('fft options')
        e = self.arrlike(st, v)
        if e is None:
            return self.unknown('fft argument')
        sh, dt, f = e
        if len(sh) < nd:
            self.verr(st, 'axes exceeds dimensionality')
        for x in sh[-nd:]:
            self.raise_if(st, lt(x, ONE), 'ValueError', StrV('Invalid number of FFT data points'))
        hd = len(sh) - nd
        tot = ONE
        for x in sh[hd:]:
            tot = tot * x
        inv = T.inverse(tot) if sign > 0 else ONE

        def g(ix):
            ps = [fresh_atom('d') for _ in range(nd)]
            body = f(list(ix[:hd]) + [from_atom(p) for p in ps])
            F = st.F.add(*[c for p, n in zip(ps, sh[hd:]) for c in (le(ZERO, from_atom(p)), lt(from_atom(p), n))])
            body = F.simp(body)
            return inv * T.dft_(sign, sh[hd:], mk_lam(ps, body), ix[hd:])
        return self.mkarr(st, sh, g, 'complex128')

    # ------------------------------------------------------------------ concatenate
    def concat(self, st, seq, axis=0):
        items = self.const_items(st, seq)
        if items is None:
            return self.unknown('concatenate')
        es = [self.arrlike(st, x) for x in items]
        if any(e is None for e in es):
            return self.unknown('concatenate')
        if not es:
            self.verr(st, 'need at least one array to concatenate')
        nd = len(es[0][0])
        if nd == 0:
            self.verr(st, 'zero-dimensional arrays cannot be concatenated')
        if any(len(e[0]) != nd for e in es):
            self.verr(st, 'all the input array dimensions must match')
        if axis < 0:
            axis += nd
        if axis >= nd:
            self.do_raise(st, ExcV('AxisError'))
        dt = es[0][1]
        for e in es[1:]:
            dt = dt_join(dt, e[1])
            for k in range(nd):
                if k != axis and e[0][k] != es[0][0][k]:
                    self.raise_if(st, ne(e[0][k], es[0][0][k]), 'ValueError', StrV('dimensions must match'))
        offs = [ZERO]
        for e in es:
            offs.append(offs[-1] + e[0][axis])

        def f(ix):
            t = ix[axis]
            v = from_atom(T.JUNK_ATOM)
            for e, o, o2 in reversed(list(zip(es, offs, offs[1:]))):
                j = list(ix)
                j[axis] = t - o
                v = ite(lt(t, o2), e[2](j), v)
            return v
        sh = list(es[0][0])
        sh[axis] = st.F.simp(offs[-1])
        return self.mkarr(st, sh, f, dt)

    # ------------------------------------------------------------------ external names
    def ext_attr(self, st, m, name):
        full = m.name + '.' + name
        top = m.name.split('.')[0]
        if m.name == '_csphi':
            f = getattr(self.native, 'attr', None)
            v = f(self, st, name) if f else None
            if v is None:
                self.do_raise(st, ExcV('AttributeError', [StrV(name)]))
            return v
        if m.name in ('numpy', 'np'):
            if name == 'pi':
                return NumV(T.PI, 'float')
            if name == 'e':
                return NumV(T.exp_(ONE), 'float')
            if name in ('inf', 'nan', 'Inf', 'NaN', 'infty'):
                return NumV(from_atom(mk_atom('sym', (name.lower(), 'real'), 'real', True)), 'float')
            if name == 'newaxis':
                return NONE
            if name in ('fft', 'random', 'linalg'):
                return ModV('numpy.' + name)
            if name in NP_TYPES or name in NP_ABSTRACT:
                return BuiltinV('np.' + name)
            if name in ('ndarray',):
                return BuiltinV('np.ndarray')
            if name in ('mgrid', 'ogrid', 'r_', 'c_'):
                return BuiltinV('np.' + name)
            if name == '__version__':
                return StrV('1.26')
            return BuiltinV('np.' + name)
        if m.name == 'numpy.fft':
            return BuiltinV('np.fft.' + name)
        if m.name == 'numpy.random':
            return BuiltinV('np.random.' + name)
        if m.name == 'numpy.linalg':
            return BuiltinV('np.linalg.' + name)
        if full in ('six.moves.xrange', 'six.moves.range'):
            return TypeV('range')
        if full == 'six.moves':
            return ModV(full)
        if full == 'sys.version_info':
            return TupleV([NumV(num(3), 'int'), NumV(num(12), 'int'), NumV(num(3), 'int'), StrV('final'),
                           NumV(num(0), 'int')])
        if full in ('os.path', 'numbers.Number', 'numbers.Integral', 'numbers.Real', 'numbers.Complex',
                    'functools.wraps', 'json.load', 'os.path.dirname', 'os.path.join', 'os.path.abspath'):
            if full == 'os.path':
                return ModV(full)
            return BuiltinV(full)
        if m.name in ('math', 'cmath'):
            if name == 'pi':
                return NumV(T.PI, 'float')
            return BuiltinV(full)
        if m.name == 'imp':
            return BuiltinV(full)
        return BuiltinV(full)

    # ------------------------------------------------------------------ types called
    def call_type(self, st, name, args, kw):
        from . import pyint as P
        if name in P.EXC_NAMES:
            return ExcV(name, args)
        if args and isinstance(args[0], PhiV) and name not in ('slice',):
            return self.on(st, args[0], lambda s, x: self.call_type(s, name, [x] + list(args[1:]), kw))
        a = args[0] if args else None
        if isinstance(a, UnkV):
            return self.unknown(name + '() of unknown')
        if name == 'int':
            if a is None:
                return NumV(ZERO, 'int')
            n = self.as_num(a)
            if n is not None:
                if n.ty in ('complex', 'npcomplex'):
                    self.terr(st, 'int() argument must be ... not complex')
                return NumV(st.F.simp(trunc_(st.F.simp(n.t), st.F)), 'int')
            if isinstance(a, StrV):
                return self.parse_num(st, a, 'int')
            if isinstance(a, ArrV):
                one = c_and([eq(x, ONE) for x in a.shape])
                self.raise_if(st, c_not(one), 'TypeError')
                t = self.arr_elem(st, a, [ZERO] * len(a.shape))
                return NumV(trunc_(t, st.F), 'int')
            if isinstance(a, Ref) and st.get(a.id).kind == 'obj':
                return self.unknown('int() of object')
            self.terr(st, 'int() argument')
        if name == 'float':
            if a is None:
                return NumV(ZERO, 'float')
            n = self.as_num(a)
            if n is not None:
                if n.ty in ('complex', 'npcomplex'):
                    self.terr(st, "float() argument must be a string or a real number, not 'complex'")
                return NumV(n.t, 'float')
            if isinstance(a, StrV):
                return self.parse_num(st, a, 'float')
            if isinstance(a, ArrV):
                one = c_and([eq(x, ONE) for x in a.shape])
                self.raise_if(st, c_not(one), 'TypeError')
                return NumV(T.re_im(self.arr_elem(st, a, [ZERO] * len(a.shape)))[0], 'float')
            self.terr(st, 'float() argument')
        if name == 'complex':
            ns = [self.as_num(x) for x in args]
            if any(n is None for n in ns):
                if args and isinstance(args[0], StrV):
                    return self.parse_num(st, args[0], 'complex')
                return self.unknown('complex()')
            if not ns:
                return NumV(ZERO, 'complex')
            t = ns[0].t + (ns[1].t * T.I if len(ns) > 1 else ZERO)
            return NumV(t, 'complex')
        if name == 'bool':
            if a is None:
                return BoolV(FALSE)
            c = self.truth(st, a)
            return c if isinstance(c, UnkV) else BoolV(c)
        if name == 'str':
            if a is None:
                return StrV('')
            return self.to_str(st, a)
        if name == 'list':
            if a is None:
                return self.new_list(st, [])
            l = self.new_list(st, [])
            self.list_extend(st, l, a)
            return l
        if name == 'tuple':
            if a is None:
                return TupleV([])
            xs = self.const_items(st, a)
            if xs is None:
                return self.unknown('tuple()')
            return TupleV(xs)
        if name in ('set', 'frozenset'):
            xs = self.const_items(st, a) if a is not None else []
            return self.unknown('set()') if xs is None else TupleV(xs)
        if name == 'dict':
            d = {}
            if a is not None:
                if isinstance(a, Ref) and st.get(a.id).kind == 'dict':
                    d = dict(st.get(a.id).d)
                else:
                    xs = self.const_items(st, a)
                    if xs is None:
                        return self.unknown('dict()')
                    for x in xs:
                        p = self.const_items(st, x)
                        k = self.to_key(p[0]) if p and len(p) == 2 else None
                        if k is None or P.has_sym(k):
                            return self.unknown('dict()')
                        d[k] = p[1]
            d.update(kw)
            return Ref(st.new('dict', DictRec('dict', d)))
        if name == 'range':
            ns = []
            for x in args:
                n = self.as_num(x)
                if n is None:
                    if isinstance(x, PhiV):
                        k = args.index(x)
                        return self.on(st, x, lambda s, y: self.call_type(
                            s, name, args[:k] + [y] + args[k + 1:], kw))
                    if isinstance(x, UnkV):
                        return self.unknown('range() of unknown')
                    self.terr(st, 'range() argument')
                if n.ty not in ('int', 'npint', 'bool'):
                    self.terr(st, "'float' object cannot be interpreted as an integer")
                ns.append(st.F.simp(n.t))
            if len(ns) == 1:
                return RangeV(ZERO, ns[0], ONE)
            if len(ns) == 2:
                return RangeV(ns[0], ns[1], ONE)
            if len(ns) == 3:
                return RangeV(*ns)
            self.terr(st, 'range expected')
        if name == 'slice':
            a = list(args)
            if len(a) == 1:
                a = [NONE, a[0], NONE]
            elif len(a) == 2:
                a = a + [NONE]
            return SliceV(*a)
        if name == 'property':
            get = args[0] if args else kw.get('fget')
            st_ = args[1] if len(args) > 1 else kw.get('fset')
            return PropV(get, None if isinstance(st_, NoneT) else st_)
        if name == 'staticmethod' or name == 'classmethod':
            return StaticV(args[0], name)
        if name == 'enumerate':
            s0 = args[1] if len(args) > 1 else kw.get('start')
            return IterV('enumerate', [args[0]], self.as_num(s0).t if s0 is not None else None)
        if name == 'zip':
            return IterV('zip', list(args))
        if name == 'reversed':
            if isinstance(a, RangeV):
                n = self.range_len(st, a)
                if n is not None:
                    last = a.lo + a.step * (n - 1)
                    return RangeV(last, a.lo - a.step, -a.step) if a.step.int_const() in (1, -1) else \
                        IterV('reversed', [a])
            return IterV('reversed', [a])
        if name == 'map':
            return IterV('map', list(args))
        if name == 'object':
            return Ref(st.new('obj', DictRec('obj', {}, None)))
        if name == 'type':
            if len(args) == 1:
                return self.type_of(st, a)
        return self.unknown('type call ' + name)

    def type_of(self, st, v):
        if isinstance(v, NumV):
            if v.ty.startswith('np'):
                return BuiltinV({'npint': 'np.int64', 'npfloat': 'np.float64', 'npcomplex': 'np.complex128'}[v.ty])
            return TypeV(v.ty)
        if isinstance(v, BoolV):
            return TypeV('bool')
        if isinstance(v, StrV):
            return TypeV('str')
        if isinstance(v, TupleV):
            return TypeV('tuple')
        if isinstance(v, SliceV):
            return TypeV('slice')
        if isinstance(v, NoneT):
            return TypeV('NoneType')
        if isinstance(v, ArrV):
            return BuiltinV('np.ndarray')
        if isinstance(v, ExcV):
            return v.user or TypeV(v.cls)
        if isinstance(v, Ref):
            r = st.get(v.id)
            if r.kind == 'obj' and r.cls is not None:
                return r.cls
            return TypeV(r.kind)
        return self.unknown('type()')

    def to_str(self, st, a, rep=False):
        if isinstance(a, StrV):
            return a if not rep else StrV("'", *a.parts + ("'",))
        n = self.as_num(a)
        if isinstance(a, NumV):
            k = a.t.int_const()
            if a.ty in ('int', 'npint') and k is not None:
                return StrV(str(k))
            return StrV(('f', a, '', None))
        if isinstance(a, Ref) and st.get(a.id).kind == 'obj':
            cls = st.get(a.id).cls
            m = (None if rep else self.find_attr(st, cls, '__str__')) or self.find_attr(st, cls, '__repr__')
            if m is not None:
                return self.call(st, Bound(m, a), [], {})
        if isinstance(a, NoneT):
            return StrV('None')
        return StrV(('f', a, '', 'r' if rep else None))

    # ------------------------------------------------------------------ strings
    def parse_num(self, st, s, kind):
        s = strip_parts(s)
        c = s.const()
        if c is not None:
            try:
                v = {'int': int, 'float': float, 'complex': complex}[kind](c)
            except ValueError:
                self.verr(st, 'invalid literal')
            if kind == 'int':
                return NumV(num(v), 'int')
            if v != v or v in (float('inf'), float('-inf')) or kind == 'complex':
                return self.unknown('parsed constant')
            return NumV(T.fromfloat(v), 'float')
        if len(s.parts) == 1 and s.parts[0][0] == 'f':
            _, v, spec, conv = s.parts[0]
            n = self.as_num(v)
            if n is None:
                if isinstance(v, StrV):
                    return self.parse_num(st, v, kind)
                return self.unknown('parse')
            spec = _re.sub(r'^[<>^=]?[+ ]?\d*(?=\D|$)', '', spec) if _re.match(r'^[<>^]?\d+$', spec) else spec
            spec = _re.sub(r'^[<>^]?[+ ]?\d*(?=\.)', '', spec)
            if n.ty in ('int', 'npint'):
                if spec in ('', 'd', 'n'):
                    return NumV(n.t, 'int' if kind == 'int' else 'float')
            if n.ty in ('float', 'npfloat'):
                if kind == 'int':
                    if n.t.sort == 'int' and spec == '.0f':
                        return NumV(n.t, 'int')
                    self.verr(st, 'invalid literal for int()')
                if spec in ('', 'r') or exact_spec(spec):
                    return NumV(n.t, 'float')
                return NumV(from_atom(mk_atom('rnd', (n.t, spec), 'real')), 'float')
            if spec == '' and n.ty in ('complex', 'npcomplex') and kind == 'complex':
                return NumV(n.t, 'complex')
            if n.ty in ('complex', 'npcomplex') and kind != 'complex':
                self.verr(st, 'could not convert string')
        return self.unknown('parse')

    def str_getitem(self, st, o, i):
        c = o.const()
        if c is not None and isinstance(i, (NumV,)):
            k = i.t.int_const()
            if k is not None:
                try:
                    return StrV(c[k])
                except IndexError:
                    self.do_raise(st, ExcV('IndexError'))
        if c is not None and isinstance(i, SliceV):
            a, b, s = [self.to_int_const(x) for x in (i.start, i.stop, i.step)]
            if '?' not in (a, b, s):
                return StrV(c[a:b:s])
        return StrV(('f', TupleV([o, i]), '', 'item'))

    def str_mod(self, st, a, b):
        c = a.const()
        items = list(b.items) if isinstance(b, TupleV) else [b]
        if c is None:
            return StrV(('f', TupleV([a, b]), '', '%'))
        parts = []
        pos = 0
        k = 0
        for m in _re.finditer(r'%(\((\w+)\))?([-+ #0]*\d*(?:\.\d+)?)([a-zA-Z%])', c):
            parts.append(c[pos:m.start()])
            pos = m.end()
            if m.group(4) == '%':
                parts.append('%')
                continue
            if k >= len(items):
                self.terr(st, 'not enough arguments for format string')
            v = items[k]
            k += 1
            if isinstance(v, (NumV, BoolV)):
                n = self.as_num(v)
                if m.group(4) in 'di':
                    kk = n.t.int_const()
                    parts.append(str(kk) if kk is not None and not m.group(3) else ('f', v, m.group(3) + 'd', None))
                elif m.group(4) == 's':
                    parts.append(('f', v, '', None))
                else:
                    parts.append(('f', v, m.group(3) + m.group(4), None))
            elif isinstance(v, StrV):
                if m.group(4) in 'di':
                    self.terr(st, '%d format: a real number is required')
                parts.extend(v.parts)
            else:
                if m.group(4) in 'dif' and isinstance(v, (NoneT, TupleV)):
                    self.terr(st, '%d format: a real number is required')
                parts.append(('f', v, m.group(3) + m.group(4), None))
        parts.append(c[pos:])
        if k < len(items) and isinstance(b, TupleV):
            self.terr(st, 'not all arguments converted during string formatting')
        return StrV(*parts)

    def str_format(self, st, slf, args, kw):
        c = slf.const()
        if c is None:
            return StrV(('f', TupleV([slf] + list(args)), '', 'format'))
        import string
        auto = 0
        parts = []
        try:
            toks = list(string.Formatter().parse(c))
        except ValueError:
            self.verr(st, 'format')
        for lit, field, spec, conv in toks:
            parts.append(lit)
            if field is None:
                continue
            m = _re.match(r'^(\w*)(.*)$', field)
            name, rest = m.group(1), m.group(2)
            if name == '':
                k = auto
                auto += 1
            elif name.isdigit():
                k = int(name)
            else:
                k = name
            if isinstance(k, int):
                if k >= len(args):
                    self.do_raise(st, ExcV('IndexError', [StrV('Replacement index out of range')]))
                v = args[k]
            else:
                if k not in kw:
                    self.do_raise(st, ExcV('KeyError', [StrV(k)]))
                v = kw[k]
            for acc in _re.findall(r'\.(\w+)|\[(\w+)\]', rest):
                if acc[0]:
                    v = self.getattr(st, v, acc[0])
                else:
                    v = self.getitem(st, v, NumV(num(int(acc[1]))) if acc[1].isdigit() else StrV(acc[1]))
            p = self.fmt1(st, v, spec or '', conv)
            if isinstance(p, list):
                parts.extend(p)
            else:
                parts.append(p)
        return StrV(*parts)

    def str_method(self, st, name, s, args, kw):
        c = s.const()
        ca = []
        allc = c is not None
        for a in args:
            if isinstance(a, StrV) and a.const() is not None:
                ca.append(a.const())
            elif isinstance(a, NumV) and a.t.int_const() is not None:
                ca.append(a.t.int_const())
            elif isinstance(a, NoneT):
                ca.append(None)
            else:
                allc = False
        if name == 'format':
            return self.str_format(st, s, args, kw)
        if name == 'join':
            xs = self.const_items(st, args[0])
            if xs is not None:
                if any(not isinstance(x, StrV) for x in xs):
                    if any(isinstance(x, UnkV) for x in xs):
                        return self.unknown('join')
                    self.terr(st, 'sequence item: expected str instance')
                parts = []
                for k, x in enumerate(xs):
                    if k:
                        parts.extend(s.parts)
                    parts.extend(x.parts)
                return StrV(*parts)
            return StrV(('f', TupleV([s, args[0]]), '', 'join'))
        if allc and not kw:
            try:
                r = getattr(c, name)(*ca)
            except (ValueError, IndexError) as e:
                self.do_raise(st, ExcV(type(e).__name__))
            except TypeError:
                self.terr(st)
            return self.pyval(st, r)
        if name in ('strip', 'rstrip', 'lstrip') and not args:
            return strip_parts(s, name)
        if name == 'split' and len(ca) == 1 == len(args) and isinstance(ca[0], str) and splittable(s, ca[0]):
            cur, out = [], []
            for p in s.parts:
                if isinstance(p, str):
                    ss = p.split(ca[0])
                    cur.append(ss[0])
                    for x in ss[1:]:
                        out.append(StrV(*cur))
                        cur = [x]
                else:
                    cur.append(p)
            out.append(StrV(*cur))
            return self.new_list(st, out)
        if name == 'split' and not args and splittable(s, ' '):
            cur, out = [], []
            for p in s.parts:
                if isinstance(p, str):
                    ss = _re.split(r'\s+', p)
                    cur.append(ss[0])
                    for x in ss[1:]:
                        out.append(StrV(*cur))
                        cur = [x]
                else:
                    cur.append(p)
            out.append(StrV(*cur))
            return self.new_list(st, [x for x in out if x.parts])
        if name in ('startswith', 'endswith') and len(ca) == 1 and isinstance(ca[0], str):
            e = s.parts[0] if name == 'startswith' else s.parts[-1]
            if isinstance(e, str) and len(e) >= len(ca[0]):
                return BoolV(cbool(getattr(e, name)(ca[0])))
            return UnkV('startswith')
        if name in ('splitlines',):
            return self.new_list(st, [StrV(*x) for x in lines_of(s, False)])
        return StrV(('f', TupleV([s] + list(args)), '', name))

    def pyval(self, st, r):
        if isinstance(r, bool):
            return BoolV(cbool(r))
        if isinstance(r, int):
            return NumV(num(r), 'int')
        if isinstance(r, float):
            return NumV(T.fromfloat(r), 'float')
        if isinstance(r, str):
            return StrV(r)
        if r is None:
            return NONE
        if isinstance(r, list):
            return self.new_list(st, [self.pyval(st, x) for x in r])
        if isinstance(r, tuple):
            return TupleV([self.pyval(st, x) for x in r])
        if isinstance(r, dict):
            return Ref(st.new('dict', DictRec('dict', dict((k, self.pyval(st, x)) for k, x in r.items()))))
        return self.unknown('value')

    # ------------------------------------------------------------------ files
    def fkey(self, name):
        if isinstance(name, StrV):
            c = name.const()
            if c is not None:
                return 'n:' + c
            return 'v:' + repr([p if isinstance(p, str) else (id(p[1]),) for p in name.parts])
        return 'v:%d' % id(name)

    def open_file(self, st, name, mode):
        self.hid(st)
        k = self.fkey(name)
        fs = st.mut('%fs')
        if 'w' in mode or 'a' in mode or 'x' in mode or '+' in mode:
            self.trace.append(('open-write', self.site))
        if 'w' in mode or k not in fs.d:
            if 'w' in mode:
                fid = st.new('file', FileRec([], name))
                fs.d[k] = FileV(fid, mode)
                return FileV(fid, mode)
            if k.startswith('n:') and os_exists(k[2:], self.root):
                fid = st.new('file', FileRec([('real', k[2:])], name))
                return FileV(fid, mode)
            self.raise_if(st, bcond(mk_atom('unk', (fresh_name('nofile'),), 'int', True)), 'FileNotFoundError')
            fid = st.new('file', FileRec([('unk',)], name))
            fs.d[k] = FileV(fid, mode)
            return FileV(fid, mode)
        f = fs.d[k]
        if isinstance(f, FileV):
            return FileV(f.fid, mode)
        return self.unknown('file')

    def file_method(self, st, name, f, args):
        if name == 'write':
            def w(st, s):
                if isinstance(s, StrV):
                    st.mut(f.fid).segs.append(('one', s))
                elif isinstance(s, UnkV):
                    st.mut(f.fid).segs.append(('unk',))
                else:
                    self.terr(st, 'write() argument must be str')
            self.on(st, args[0], w)
            return NONE
        if name == 'writelines':
            segs = self.as_segs(st, args[0])
            st.mut(f.fid).segs.extend(segs if segs is not None else [('unk',)])
            return NONE
        if name in ('close', 'flush'):
            return NONE
        if name == '__enter__':
            return f
        if name in ('readlines', 'read', '__iter__'):
            r = st.get(f.fid)
            if not isinstance(r, FileRec):
                return self.unknown('file content')
            if name == 'read':
                if all(s[0] == 'one' for s in r.segs):
                    return StrV(*[p for s in r.segs for p in s[1].parts])
                return self.unknown('read')
            segs = line_segs(r.segs)
            if segs is None:
                return self.unknown('file lines')
            return Ref(st.new('list', ListRec(segs)))
        if name == 'readline':
            r = st.get(f.fid)
            segs = line_segs(r.segs) if isinstance(r, FileRec) else None
            if segs is None or not segs or segs[0][0] != 'one':
                return self.unknown('readline')
            st.mut(f.fid).segs = segs[1:]
            return segs[0][1]
        return self.unknown('file method ' + name)

    # ------------------------------------------------------------------ methods
    def call_method(self, st, name, slf, args, kw):
        if isinstance(slf, PhiV):
            return self.on(st, slf, lambda s, x: self.call_method(s, name, x, args, kw))
        if isinstance(slf, BoolV):
            slf = self.as_num(slf)
        if isinstance(slf, StrV):
            return self.str_method(st, name, slf, args, kw)
        if isinstance(slf, FileV):
            return self.file_method(st, name, slf, args)
        if isinstance(slf, ArrV):
            return self.arr_method(st, name, slf, args, kw)
        if isinstance(slf, NumV):
            if name in ('conjugate', 'conj'):
                return NumV(T.conj_(slf.t) if slf.t.sort == 'complex' else slf.t, slf.ty)
            if name in ('item', 'copy', 'sum', 'max', 'min'):
                return slf
            if name == 'astype':
                return self.to_arr(st, slf, self.dtype_of(args[0]))
            if name in ('__repr__', '__str__'):
                return self.to_str(st, slf)
            if name == '__abs__':
                return self.np_map1(st, 'abs', slf)
            if name == 'is_integer':
                return UnkV('is_integer')
            return self.unknown('number method ' + name)
        if isinstance(slf, TupleV):
            if name == 'index' or name == 'count':
                return self.unknown('tuple method')
            if name == '__len__':
                return NumV(num(len(slf.items)), 'int')
            if name in ('__repr__', '__str__'):
                return StrV(('f', slf, '', 'r'))
            return self.unknown('tuple method')
        if isinstance(slf, Ref):
            r = st.get(slf.id)
            if isinstance(r, PhiRec):
                if name in ('append', 'extend', 'pop', 'insert'):
                    st.heap[slf.id] = ListRec([('unk',)])
                return self.unknown('method of joined list')
            if r.kind == 'list':
                return self.list_method(st, name, slf, args, kw)
            if r.kind == 'dict':
                return self.dict_method(st, name, slf, args, kw)
            if name in ('__repr__', '__str__'):
                return StrV(('f', slf, '', 'r'))
        if isinstance(slf, SliceV) and name == 'indices':
            n = self.as_num(args[0])
            x = self.norm_slice(st, slf, n.t)
            if x is None:
                return self.unknown('indices')
            a, ln, step = x
            stop = a + ln.scale(step)
            return TupleV([NumV(a, 'int'), NumV(stop, 'int'), NumV(num(step), 'int')])
        return self.unknown('method ' + name)

    def list_method(self, st, name, l, args, kw):
        if name == 'append':
            st.mut(l.id).segs.append(('one', args[0]))
            return NONE
        if name == 'extend':
            self.list_extend(st, l, args[0])
            return NONE
        if name == 'insert':
            k = self.to_int_const(args[0])
            r = st.mut(l.id)
            if k == 0:
                r.segs.insert(0, ('one', args[1]))
                return NONE
            xs = self.const_items(st, l)
            if xs is not None and isinstance(k, int):
                xs.insert(k, args[1])
                r.segs = [('one', x) for x in xs]
                return NONE
            r.segs = [('unk',)]
            return self.unknown('insert') and NONE
        if name == 'pop':
            k = self.to_int_const(args[0]) if args else -1
            if not isinstance(k, int):
                st.mut(l.id).segs = [('unk',)]
                return self.unknown('pop')
            return self.list_pop(st, l, k)
        if name == 'copy':
            r = st.get(l.id)
            return Ref(st.new('list', ListRec(r.segs)))
        if name == 'reverse':
            xs = self.const_items(st, l)
            if xs is not None:
                st.mut(l.id).segs = [('one', x) for x in reversed(xs)]
                return NONE
            r = st.mut(l.id)
            segs = rev_segs(r.segs)
            if segs is None:
                r.segs = [('unk',)]
                self.unknown('reverse')
            else:
                r.segs = segs
            return NONE
        if name == 'clear':
            st.mut(l.id).segs = []
            return NONE
        if name in ('sort', 'remove'):
            st.mut(l.id).segs = [('unk',)]
            return self.unknown('list.' + name)
        if name == '__len__':
            n = self.list_len(st, l)
            return self.unknown('len') if n is None else NumV(n, 'int')
        if name in ('__repr__', '__str__'):
            return StrV(('f', l, '', 'r'))
        return self.unknown('list.' + name)

    def dict_method(self, st, name, d, args, kw):
        r = st.get(d.id)
        from . import pyint as P
        if name in ('get', 'setdefault'):
            k = self.to_key(args[0])
            v = self.dict_find(st, r, k)
            if v is None:
                if name == 'setdefault':
                    self.dict_store(st, d.id, None, None)
                return self.unknown('dict.' + name)
            df = args[1] if len(args) > 1 else NONE
            c = P.defined_cond(v)
            if c.k == 'T':
                return v
            x = merge_val(c, v, df)
            if isinstance(x, PhiV):
                x = P.drop_undef(v, df)
            if name == 'setdefault':
                self.dict_store(st, d.id, k, x)
            return x
        if name == 'update':
            if args and isinstance(args[0], Ref) and st.get(args[0].id).kind == 'dict':
                o = st.get(args[0].id)
                if not self.plain_dict(o):
                    self.dict_store(st, d.id, None, None)
                    return NONE
                for k, v in o.d.items():
                    self.dict_store(st, d.id, k, v)
            elif args:
                self.dict_store(st, d.id, None, None)
            for k, v in kw.items():
                self.dict_store(st, d.id, k, v)
            return NONE
        if name == 'clear':
            st.mut(d.id).d = {}
            return NONE
        if name == 'copy':
            return Ref(st.new('dict', DictRec('dict', dict(r.d))))
        if not self.plain_dict(r):
            if name in ('pop', 'popitem'):
                self.dict_store(st, d.id, None, None)
            return self.unknown('dict.' + name)
        if name == 'keys':
            return self.new_list(st, [self.from_key(k) for k in r.d])
        if name == 'values':
            return self.new_list(st, list(r.d.values()))
        if name == 'items':
            return self.new_list(st, [TupleV([self.from_key(k), v]) for k, v in r.d.items()])
        if name == 'pop':
            k = self.to_key(args[0])
            if k is None or P.has_sym(k):
                self.dict_store(st, d.id, None, None)
                return self.unknown('dict.pop')
            if k in r.d:
                return st.mut(d.id).d.pop(k)
            if len(args) > 1:
                return args[1]
            self.do_raise(st, ExcV('KeyError', [args[0]]))
        if name == 'popitem':
            self.dict_store(st, d.id, None, None)
        return self.unknown('dict.' + name)

    def axis_of(self, args, kw, pos=0):
        a = kw.get('axis')
        if a is None and len(args) > pos:
            a = args[pos]
        if a is None or isinstance(a, NoneT):
            return None
        if isinstance(a, NumV) and a.t.int_const() is not None:
            return a.t.int_const()
        return '?'

    def arr_method(self, st, name, o, args, kw):
        if name == 'copy':
            return self.to_arr(st, o)
        if name == 'reshape':
            return self.reshape(st, o, args)
        if name in ('ravel', 'flatten'):
            r = self.reshape(st, o, [NumV(num(-1), 'int')])
            return self.to_arr(st, r) if name == 'flatten' and isinstance(r, ArrV) else r
        if name in ('conj', 'conjugate'):
            return self.np_map1(st, 'conj', o)
        if name == 'astype':
            d = self.dtype_of(args[0] if args else kw.get('dtype'))
            if d in (None, '?'):
                return self.unknown('astype')
            cp = kw.get('copy')
            return self.to_arr(st, o, d, copy=not (isinstance(cp, BoolV) and cp.c.k == 'F'))
        if name in ('sum', 'prod', 'max', 'min', 'mean', 'all', 'any', 'dot', 'round', 'cumsum', 'std', 'var'):
            return self.np_call(st, name, [o] + list(args), kw)
        if name == 'transpose':
            if not args:
                return self.arr_attr(st, o, 'T')
        if name == 'fill':
            self.arr_write(st, o, args[0])
            return NONE
        if name == 'tolist':
            if len(o.shape) == 1:
                segs = self.as_segs(st, o)
                if segs is not None:
                    return Ref(st.new('list', ListRec(segs)))
            return self.unknown('tolist')
        if name == 'item':
            if not args:
                one = c_and([eq(x, ONE) for x in o.shape])
                self.raise_if(st, c_not(one), 'ValueError')
                return NumV(self.arr_elem(st, o, [ZERO] * len(o.shape)),
                            {'int64': 'int', 'float64': 'float'}.get(o.dtype, 'complex'))
            return self.getitem(st, o, args[0] if len(args) == 1 else TupleV(args))
        if name == 'squeeze':
            keep = [k for k, x in enumerate(o.shape) if x.int_const() != 1]
            mp = {}
            for k in range(len(o.shape)):
                mp[PV[k]] = PVT[keep.index(k)] if k in keep else ZERO
            return ArrV(o.buf, [subst(e, mp) for e in o.imap], [o.shape[k] for k in keep], o.dtype, o.contig)
        if name == 'sort':
            r = self.n_sort(st, [self.to_arr(st, o)], {}) if len(o.shape) == 1 and not args and not kw else None
            if isinstance(r, ArrV):
                self.arr_write(st, o, r)
            else:
                self.clobber(st, o)
            return NONE
        if name in ('partition', 'put', 'resize', 'byteswap'):
            self.clobber(st, o)
            return self.unknown('array.' + name)
        if name == '__len__':
            return NumV(o.shape[0], 'int')
        if name in ('__repr__', '__str__'):
            return StrV(('f', o, '', 'r'))
        if name == 'itemset' and len(args) > 1:
            self.setitem(st, o, args[0] if len(args) == 2 else TupleV(args[:-1]), args[-1])
            return NONE
        if name in ('setflags', 'itemset'):
            if name == 'itemset':
                self.clobber(st, o)
            self.unknown('array.' + name)
            return NONE
        return self.unknown('array.' + name)

    # ------------------------------------------------------------------ builtins
    def call_builtin(self, st, f, args, kw):
        name = f.name
        if name.startswith('np.') or name.startswith('numpy.'):
            return self.np_call(st, name.split('.', 1)[1], args, kw)
        if name.startswith('prop_'):
            p = f.extra
            if name == 'prop_setter':
                return PropV(p.get, args[0])
            if name == 'prop_getter':
                return PropV(args[0], p.set)
            return p
        if name == 'noop':
            return NONE
        if name in CLOCKS:
            return self.clock(st, name)
        m = getattr(self, 'b_' + name.replace('.', '_'), None)
        if m is not None:
            return m(st, args, kw)
        if name.startswith('native:'):
            return f.extra(self, st, args, kw)
        if name.startswith('wrapped:'):
            return args[0]
        if name.startswith('math.') or name.startswith('cmath.'):
            return self.math_call(st, name, args)
        if name.startswith('matplotlib') or name.startswith('mpl_toolkits'):
            self.trace.append(('plot', name, self.site))
            return BuiltinV(name + '()')
        if name == 'typemethod':
            t, meth = f.extra
            if args and t in ('str', 'list', 'dict', 'int', 'float', 'complex', 'tuple'):
                return self.call_method(st, meth, args[0], list(args[1:]), kw)
            if t == 'object' and meth in ('__init__', '__setattr__', '__new__'):
                if meth == '__setattr__':
                    self.setattr_raw(st, args)
                return NONE
            return self.unknown('typemethod')
        return self.unknown('call of ' + name)

    def setattr_raw(self, st, args):
        o, n, v = args
        if isinstance(o, Ref) and isinstance(n, StrV) and n.const():
            st.mut(o.id).d[n.const()] = v

    def b_functools_wraps(self, st, args, kw):
        return BuiltinV('wrapped:', args[0])

    def memo(self, st, fn):
        from . import pyint as P
        id = st.new('dict', DictRec('dict'))

        def call(I, st, args, kw):
            k = I.to_key(TupleV(list(args) + [StrV('|')] + [TupleV([StrV(a), b]) for a, b in sorted(kw.items())]))
            if k is None:
                I.unknown('memoised call')
                return I.call(st, fn, args, kw)
            v = I.dict_find(st, st.get(id), k)
            if v is None:
                return I.unknown('memoised call')
            out = []

            def hit(s):
                out.append(P.drop_undef(v, NONE))

            def miss(s):
                x = I.call(s, fn, args, kw)
                I.dict_store(s, id, k, x)
                out.append(x)
            c = P.defined_cond(v)
            I.branch(st, c, hit, miss)
            v2 = I.dict_find(st, st.get(id), k)
            return I.defined(st, v2, 'memo') if v2 is not None else I.unknown('memoised call')
        return BuiltinV('native:memo', call)

    def b_functools_lru_cache(self, st, args, kw):
        if args and isinstance(args[0], (FuncV, Bound, BuiltinV)):
            return self.memo(st, args[0])
        return BuiltinV('native:lru_cache', lambda I, s, a, k: I.memo(s, a[0]))

    def b_functools_cache(self, st, args, kw):
        return self.memo(st, args[0])

    def b_os_path_dirname(self, st, args, kw):
        if isinstance(args[0], StrV) and args[0].const() is not None:
            import os
            return StrV(os.path.dirname(args[0].const()))
        return self.unknown('dirname')

    def b_os_path_join(self, st, args, kw):
        parts = []
        for k, a in enumerate(args):
            if not isinstance(a, StrV):
                return self.unknown('join')
            if k:
                parts.append('/')
            parts.extend(a.parts)
        return StrV(*parts)

    def b_os_path_abspath(self, st, args, kw):
        return args[0]

    def b_json_load(self, st, args, kw):
        f = args[0]
        if isinstance(f, FileV):
            r = st.get(f.fid)
            if isinstance(r, FileRec) and len(r.segs) == 1 and r.segs[0][0] == 'real':
                try:
                    with open(r.segs[0][1]) as fp:
                        data = _json.load(fp)
                except (IOError, ValueError):
                    return self.unknown('json')
                if isinstance(data, dict) and 'use_cext' in data:
                    data['use_cext'] = 'True' if self.cfg['use_cext'] else ''
                return self.pyval(st, data)
        return self.unknown('json.load')

    def b_len(self, st, args, kw):
        def f(st, v):
            if isinstance(v, ArrV):
                return NumV(v.shape[0], 'int')
            if isinstance(v, TupleV):
                return NumV(num(len(v.items)), 'int')
            if isinstance(v, StrV):
                c = v.const()
                return NumV(num(len(c)), 'int') if c is not None else self.unknown('len of string')
            if isinstance(v, RangeV):
                n = self.range_len(st, v)
                return self.unknown('len of range') if n is None else NumV(n, 'int')
            if isinstance(v, Ref):
                r = st.get(v.id)
                if isinstance(r, PhiRec):
                    def ln(r):
                        if isinstance(r, PhiRec):
                            a, b = ln(r.a), ln(r.b)
                            return None if a is None or b is None else ite(r.c, a, b)
                        t = st.new('list', r)
                        return self.list_len(st, Ref(t))
                    n = ln(r)
                    return self.unknown('len of list') if n is None else NumV(n, 'int')
                if r.kind == 'list':
                    n = self.list_len(st, v)
                    return self.unknown('len of list') if n is None else NumV(st.F.simp(n), 'int')
                if r.kind == 'dict':
                    return NumV(num(len(r.d)), 'int') if self.plain_dict(r) else self.unknown('len of dict')
                if r.kind == 'obj':
                    m = self.find_attr(st, r.cls, '__len__')
                    if m is not None:
                        return self.call(st, Bound(m, v), [], {})
            if isinstance(v, UnkV):
                return self.unknown('len of unknown')
            self.terr(st, 'object has no len()')
        return self.on(st, args[0], f)

    def b_abs(self, st, args, kw):
        def f(st, v):
            n = self.as_num(v)
            if n is not None:
                ty = {'complex': 'float', 'npcomplex': 'npfloat', 'bool': 'int'}.get(n.ty, n.ty)
                return NumV(T.abs_(st.F.simp(n.t)), ty)
            if isinstance(v, ArrV):
                return self.np_map1(st, 'abs', v)
            if isinstance(v, Ref) and st.get(v.id).kind == 'obj':
                m = self.find_attr(st, st.get(v.id).cls, '__abs__')
                if m is not None:
                    return self.call(st, Bound(m, v), [], {})
            if isinstance(v, UnkV):
                return self.unknown('abs of unknown')
            self.terr(st, 'bad operand type for abs()')
        return self.on(st, args[0], f)

    def b_isinstance(self, st, args, kw):
        v, t = args

        def f(st, v):
            if isinstance(v, UnkV):
                return UnkV('isinstance')
            r = self.isinst(st, v, t)
            return UnkV('isinstance') if r is None else BoolV(cbool(r))
        return self.on(st, v, f)

    def isinst(self, st, v, t):
        if isinstance(t, TupleV):
            rs = [self.isinst(st, v, x) for x in t.items]
            if any(r is True for r in rs):
                return True
            return None if any(r is None for r in rs) else False
        if isinstance(t, ClassV):
            if isinstance(v, Ref) and st.get(v.id).kind == 'obj':
                return self.cls_issub(st.get(v.id).cls, t)
            if isinstance(v, ExcV) and v.user is not None:
                return self.cls_issub(v.user, t)
            return False
        ty = v.ty if isinstance(v, NumV) else ('npbool' if isinstance(v, BoolV) and v.np else
                                               'bool' if isinstance(v, BoolV) else None)
        if isinstance(t, TypeV):
            n = t.name
            if n == 'object':
                return True
            if n == 'int':
                return ty in ('int', 'bool')
            if n == 'float':
                return ty in ('float', 'npfloat')
            if n == 'complex':
                return ty in ('complex', 'npcomplex')
            if n == 'bool':
                return ty == 'bool'
            if n == 'str':
                return isinstance(v, StrV)
            if n == 'tuple':
                return isinstance(v, TupleV)
            if n == 'slice':
                return isinstance(v, SliceV)
            if n == 'range':
                return isinstance(v, RangeV)
            if n in ('list', 'dict'):
                return isinstance(v, Ref) and st.get(v.id).kind == n
            if isinstance(v, ExcV):
                return self.exc_isinst(v, t)
            if n in ('set', 'frozenset', 'bytes', 'bytearray', 'type'):
                return False
            return False
        if isinstance(t, BuiltinV):
            n = t.name
            if n == 'numbers.Number' or n == 'numbers.Complex':
                return ty is not None and ty != 'npbool'
            if n == 'numbers.Integral':
                return ty in ('int', 'bool', 'npint')
            if n == 'numbers.Real':
                return ty in ('int', 'bool', 'npint', 'float', 'npfloat')
            if n == 'np.ndarray':
                return isinstance(v, ArrV)
            if n.startswith('np.'):
                b = n[3:]
                if b in NP_ABSTRACT:
                    return ty in NP_ABSTRACT[b]
                d = DTNAMES.get(n)
                if d:
                    return ty is not None and ty.startswith('np') and TY2DT.get(ty) == d
        return None

    def b_min(self, st, args, kw):
        return self.minmax(st, args, kw, 'min')

    def b_max(self, st, args, kw):
        return self.minmax(st, args, kw, 'max')

    def minmax(self, st, args, kw, kind):
        if kw:
            return self.unknown('min/max options')
        if len(args) == 1:
            if isinstance(args[0], ArrV):
                return self.red_max(st, args[0], kind + 'f')
            xs = self.const_items(st, args[0])
            if xs is None:
                return self.unknown('max')
            args = xs
        ns = [self.as_num(a) for a in args]
        if any(n is None for n in ns):
            for k, a in enumerate(args):
                if isinstance(a, PhiV):
                    return self.on(st, a, lambda s, x: self.minmax(s, args[:k] + [x] + args[k + 1:], {}, kind))
            return self.unknown('max')
        if not ns:
            self.verr(st, 'max() arg is an empty sequence')
        acc = ns[0]
        for n in ns[1:]:
            c = lt(acc.t, n.t) if kind == 'max' else lt(n.t, acc.t)
            d = st.F.decide(c)
            if d is True:
                acc = n
            elif d is None:
                acc = NumV(ite(c, n.t, acc.t), ty_join(acc.ty, n.ty))
        return acc

    def b_sum(self, st, args, kw):
        a = args[0]
        start = args[1] if len(args) > 1 else kw.get('start', NumV(ZERO, 'int'))
        if isinstance(a, ArrV) and len(a.shape) == 1:
            r = self.red_sum(st, a)
            return self.binop(st, 'Add', start, r)
        xs = self.const_items(st, a)
        if xs is not None:
            for x in xs:
                start = self.binop(st, 'Add', start, x)
            return start
        e = self.arrlike(st, a)
        if e is not None and len(e[0]) == 1:
            v = self.mkarr(st, e[0], e[2], e[1])
            r = self.red_sum(st, v)
            return self.binop(st, 'Add', start, r)
        return self.unknown('sum')

    def b_print(self, st, args, kw):
        self.hid(st)
        self.trace.append(('print', self.site))
        parts = []
        for k, a in enumerate(args):
            if k:
                parts.append(' ')
            s = self.to_str(st, a)
            parts.extend(s.parts if isinstance(s, StrV) else [('f', s, '', None)])
        end = kw.get('end')
        if end is None:
            parts.append('\n')
        elif isinstance(end, StrV):
            parts.extend(end.parts)
        if 'file' not in kw:
            st.mut('%out').segs.append(('one', StrV(*parts)))
        return NONE

    def b_open(self, st, args, kw):
        m = args[1] if len(args) > 1 else kw.get('mode', StrV('r'))
        c = m.const() if isinstance(m, StrV) else None
        return self.on(st, args[0], lambda s, n: self.open_file(s, n, c or 'r'))

    def b_getattr(self, st, args, kw):
        n = args[1].const() if isinstance(args[1], StrV) else None
        if n is None:
            return self.unknown('getattr')
        return self.getattr(st, args[0], n, args[2] if len(args) > 2 else None)

    def b_setattr(self, st, args, kw):
        n = args[1].const() if isinstance(args[1], StrV) else None
        if n is None:
            self.unknown('setattr')
            return NONE
        self.setattr(st, args[0], n, args[2])
        return NONE

    def b_hasattr(self, st, args, kw):
        n = args[1].const() if isinstance(args[1], StrV) else None
        if n is None:
            return UnkV('hasattr')
        mark = UnkV('absent')

        def f(st, v):
            if isinstance(v, UnkV):
                return UnkV('hasattr')
            from .pyint import Sink
            q = st.fork()
            self.sinks.append(Sink())
            try:
                r = self.getattr1(q, v, n, mark)
            except PathEnd:
                r = mark
            finally:
                self.sinks.pop()
            return BoolV(cbool(r is not mark))
        return self.on(st, args[0], f)

    def b_callable(self, st, args, kw):
        return BoolV(cbool(isinstance(args[0], (FuncV, Bound, BuiltinV, ClassV, TypeV))))

    def b_round(self, st, args, kw):
        n = self.as_num(args[0])
        if n is not None and n.t.sort == 'int' and len(args) == 1:
            return NumV(n.t, 'int')
        return self.unknown('round')

    def b_repr(self, st, args, kw):
        return self.on(st, args[0], lambda s, v: self.to_str(s, v, True))

    def b_format(self, st, args, kw):
        spec = args[1].const() if len(args) > 1 and isinstance(args[1], StrV) else ''
        p = self.fmt1(st, args[0], spec or '', None)
        return StrV(*(p if isinstance(p, list) else [p]))

    def b_pow(self, st, args, kw):
        return self.binop(st, 'Pow', args[0], args[1])

    def b_divmod(self, st, args, kw):
        return TupleV([self.binop(st, 'FloorDiv', args[0], args[1]), self.binop(st, 'Mod', args[0], args[1])])

    def b_any(self, st, args, kw):
        xs = self.const_items(st, args[0])
        if xs is None:
            return UnkV('any')
        cs = [self.truth(st, x) for x in xs]
        return UnkV('any') if any(isinstance(c, UnkV) for c in cs) else BoolV(c_or(cs))

    def b_all(self, st, args, kw):
        xs = self.const_items(st, args[0])
        if xs is None:
            return UnkV('all')
        cs = [self.truth(st, x) for x in xs]
        return UnkV('all') if any(isinstance(c, UnkV) for c in cs) else BoolV(c_and(cs))

    def b_iter(self, st, args, kw):
        return args[0]

    def b_next(self, st, args, kw):
        if isinstance(args[0], FileV):
            return self.file_method(st, 'readline', args[0], [])
        return self.unknown('next')

    def b_sorted(self, st, args, kw):
        return self.unknown('sorted')

    def b_issubclass(self, st, args, kw):
        a, b = args
        if isinstance(a, ClassV):
            return BoolV(cbool(self.cls_issub(a, b)))
        return UnkV('issubclass')

    def b_imp_find_module(self, st, args, kw):
        # 'imp' was removed from the standard library of python 3.12
        if self.native is None:
            self.do_raise(st, ExcV('ImportError', [StrV('find_module')]))
        return TupleV([FileV('%impfile', 'r'), StrV('_csphi'), StrV('')])

    def b_imp_load_module(self, st, args, kw):
        return ModV('_csphi')

    def math_call(self, st, name, args):
        b = name.split('.')[1]
        ns = [self.as_num(a) for a in args]
        if any(n is None for n in ns):
            if any(isinstance(a, UnkV) for a in args):
                return self.unknown(name)
            if len(args) == 1 and isinstance(args[0], PhiV):
                return self.on(st, args[0], lambda s, x: self.math_call(s, name, [x]))
            self.terr(st, 'must be real number')
        x = ns[0].t
        cm = name.startswith('cmath')
        if not cm and any(n.ty in ('complex', 'npcomplex') for n in ns):
            self.terr(st, 'must be real number, not complex')
        from .pyint import floor_
        if b == 'floor':
            return NumV(st.F.simp(floor_(x)), 'int')
        if b == 'ceil':
            return NumV(-floor_(-x), 'int')
        if b == 'trunc':
            return NumV(trunc_(x, st.F), 'int')
        if b == 'sqrt':
            if not cm:
                self.raise_if(st, lt(x, ZERO), 'ValueError', StrV('math domain error'))
            return NumV(T.sqrt_(x), 'complex' if cm else 'float')
        if b == 'fabs':
            return NumV(T.abs_(x), 'float')
        if b in ('exp', 'sin', 'cos', 'tan', 'log'):
            t, _ = MAP1[b](x, 'complex128' if cm else 'float64')
            return NumV(t, 'complex' if cm else 'float')
        if b == 'pow':
            return self.num_binop(st, 'Pow', NumV(x, 'float'), ns[1])
        if b == 'hypot':
            return NumV(T.sqrt_(x * x + ns[1].t * ns[1].t), 'float')
        return self.unknown(name)

    # ------------------------------------------------------------------ numpy functions
    def np_map1(self, st, name, v):
        f = MAP1[name]

        def g(st, v):
            if isinstance(v, UnkV):
                return self.unknown('np.%s of unknown' % name)
            if isinstance(v, (NoneT, StrV)):
                self.terr(st, 'ufunc not supported for the input type')
            if isinstance(v, Ref) and st.get(v.id).kind == 'obj':
                m = self.find_attr(st, st.get(v.id).cls, {'abs': '__abs__'}.get(name, name))
                if m is not None:
                    return self.call(st, Bound(m, v), [], {})
                self.terr(st, 'bad operand type for np.' + name)
            e = self.arrlike(st, v)
            if e is None:
                return self.unknown('np.%s argument' % name)
            dt = [None]

            def h(x):
                t, d = f(x[0], e[1])
                dt[0] = d
                return t
            d0 = f(ONE if e[1] != 'complex128' else T.I, e[1])[1]
            if not e[0]:
                return self.scalar(f(st.F.simp(e[2]([])), e[1])[0], d0)
            return self.mkarr(st, e[0], lambda ix: f(e[2](ix), e[1])[0], d0)
        return self.on(st, v, g)

    def np_call(self, st, name, args, kw):
        # split on joined arguments
        for k, a in enumerate(args):
            if isinstance(a, PhiV):
                return self.on(st, a, lambda s, x: self.np_call(s, name, list(args[:k]) + [x] + list(args[k + 1:]), kw))
        for k, a in kw.items():
            if isinstance(a, PhiV):
                return self.on(st, a, lambda s, x: self.np_call(s, name, args, dict(kw, **{k: x})))
        arity = 1 if name in MAP1 else 2 if name in UF2 or name in CMP2 or name in ('maximum', 'minimum') else None
        out = kw.get('out')
        if arity is not None and len(args) == arity + 1:
            out, args = args[-1], list(args[:-1])
        if isinstance(out, TupleV) and len(out.items) == 1:
            out = out.items[0]
        if out is not None and 'where' not in kw:
            kw = dict((k, v) for k, v in kw.items() if k != 'out')
            if isinstance(out, NoneT):
                return self.np_call(st, name, args, kw)
            r = self.np_call(st, name, args, kw)
            if not isinstance(out, ArrV):
                return self.unknown('out=')
            if isinstance(r, ArrV) and arity is not None and DT.index(r.dtype) > DT.index(out.dtype):
                self.do_raise(st, ExcV('TypeError', [StrV('cannot cast ufunc output')]))
            self.arr_write(st, out, r)
            return out
        if name in MAP1 and len(args) == 1 and not (set(kw) - {'dtype'}):
            return self.np_map1(st, name, args[0])
        if name in UF2 and len(args) == 2 and not kw:
            a, b = args
            if isinstance(a, (NumV, BoolV)) and isinstance(b, (NumV, BoolV)):
                a, b = self.as_num(a), self.as_num(b)
                a = NumV(a.t, {'int': 'npint', 'float': 'npfloat', 'complex': 'npcomplex', 'bool': 'npint'}.get(a.ty, a.ty))
                return self.num_binop(st, UF2[name], a, b)
            if isinstance(a, UnkV) or isinstance(b, UnkV):
                return self.unknown('np.' + name)
            return self.arr_binop(st, UF2[name], a, b)
        if name in CMP2 and len(args) == 2 and not kw:
            return self.compare(st, CMP2[name], args[0], args[1])
        m = getattr(self, 'n_' + name.replace('.', '_'), None)
        if m is not None:
            return m(st, list(args), dict(kw))
        if name in NP_TYPES:
            d = DTNAMES['np.' + name]
            if not args:
                return self.scalar(ZERO, d)
            r = self.to_arr(st, args[0], d)
            return r if r is not None else self.unknown('np.' + name)
        if name.startswith('random.'):
            return self.n_random(st, name, args, kw)
        return self.unknown('np.' + name)

    def filled(self, st, args, kw, val, name):
        shp = args[0] if args else kw.get('shape')
        d = self.dtype_of(args[1] if len(args) > 1 else kw.get('dtype'))
        if d == '?':
            return self.unknown('dtype')
        if isinstance(shp, UnkV):
            return self.unknown('shape')
        sh = self.shape_arg(st, shp)
        if sh is None:
            return self.unknown('shape')
        sh = [st.F.simp(x) for x in sh]
        self.nonneg_shape(st, sh)
        d = d or 'float64'
        if not sh:
            return self.scalar(val, d)
        if val is None:
            nm = mk_atom('sym', (fresh_name('%uninit'), 'arr', dt_sort(d)), dt_sort(d))
            return self.mkarr(st, sh, lambda ix: sel(nm, ix, dt_sort(d)), d)
        return self.mkarr(st, sh, lambda ix: val, d)

    def n_zeros(self, st, args, kw):
        return self.filled(st, args, kw, ZERO, 'zeros')

    def n_ones(self, st, args, kw):
        return self.filled(st, args, kw, ONE, 'ones')

    def n_empty(self, st, args, kw):
        return self.filled(st, args, kw, None, 'empty')

    def n_full(self, st, args, kw):
        n = self.as_num(args[1] if len(args) > 1 else kw.get('fill_value'))
        if n is None:
            return self.unknown('full')
        d = args[2] if len(args) > 2 else kw.get('dtype')
        if d is None:
            d = BuiltinV('np.' + TY2DT[n.ty])
        return self.filled(st, [args[0], d], {}, n.t, 'full')

    def like(self, st, args, kw, val):
        e = self.arrlike(st, args[0])
        if e is None:
            return self.unknown('zeros_like')
        d = self.dtype_of(args[1] if len(args) > 1 else kw.get('dtype')) or e[1]
        if d == '?':
            return self.unknown('dtype')
        if not e[0]:
            return self.scalar(val if val is not None else ZERO, d)
        if val is None:
            nm = mk_atom('sym', (fresh_name('%uninit'), 'arr', dt_sort(d)), dt_sort(d))
            return self.mkarr(st, e[0], lambda ix: sel(nm, ix, dt_sort(d)), d)
        return self.mkarr(st, e[0], lambda ix: val, d)

    def n_zeros_like(self, st, args, kw):
        return self.like(st, args, kw, ZERO)

    def n_ones_like(self, st, args, kw):
        return self.like(st, args, kw, ONE)

    def n_empty_like(self, st, args, kw):
        return self.like(st, args, kw, None)

    def n_array(self, st, args, kw, copy=True):
        d = self.dtype_of(args[1] if len(args) > 1 else kw.get('dtype'))
        if d == '?':
            return self.unknown('dtype')
        cp = kw.get('copy')
        if isinstance(cp, BoolV) and cp.c.k == 'F':
            copy = False
        a = args[0] if args else kw.get('object')
        if isinstance(a, UnkV):
            return self.unknown('np.array of unknown')
        r = self.to_arr(st, a, d, copy=copy)
        if r is None:
            if isinstance(a, (Ref, TupleV)):
                return self.unknown('np.array')
            if isinstance(a, NoneT):
                return self.unknown('object array')
            return self.unknown('np.array')
        return r

    def n_asarray(self, st, args, kw):
        return self.n_array(st, args, kw, copy=False)

    n_asanyarray = n_asarray

    def n_ascontiguousarray(self, st, args, kw):
        a = args[0]
        d = self.dtype_of(args[1] if len(args) > 1 else kw.get('dtype'))
        if isinstance(a, ArrV) and a.contig and (d is None or d == a.dtype and is_single(d) == self.single(st, a)):
            return a
        return self.n_array(st, args, kw, copy=True)

    n_require = n_ascontiguousarray

    def n_copy(self, st, args, kw):
        return self.n_array(st, args, kw)

    def n_atleast_1d(self, st, args, kw):
        if isinstance(args[0], ArrV):
            return args[0]
        return self.unknown('atleast_1d')

    def red(self, st, args, kw, kind):
        ax = self.axis_of(args, kw, 1)
        if ax == '?':
            return self.unknown('axis')
        if isinstance(args[0], UnkV):
            return self.unknown('reduction of unknown')
        kw = dict((k, v) for k, v in kw.items() if k not in ('axis', 'dtype'))
        if kw:
            return self.unknown('reduction options')
        if kind in ('maxf', 'minf'):
            return self.red_max(st, args[0], kind, ax)
        return self.red_sum(st, args[0], ax, kind)

    def n_sum(self, st, args, kw):
        return self.red(st, args, kw, 'sum')

    def n_prod(self, st, args, kw):
        return self.red(st, args, kw, 'prod')

    def n_max(self, st, args, kw):
        return self.red(st, args, kw, 'maxf')

    n_amax = n_max

    def n_min(self, st, args, kw):
        return self.red(st, args, kw, 'minf')

    n_amin = n_min

    def n_mean(self, st, args, kw):
        if len(args) > 1 or kw:
            return self.unknown('mean options')
        r = self.red_sum(st, args[0])
        if isinstance(r, NumV) and isinstance(args[0], ArrV):
            n = ONE
            for x in args[0].shape:
                n = n * x
            return NumV(r.t / n, ty_join(r.ty, 'npfloat'))
        return self.unknown('mean')

    def n_dot(self, st, args, kw):
        a, b = args
        if isinstance(a, ArrV) and isinstance(b, ArrV) and len(a.shape) == 1 == len(b.shape):
            p = self.arr_binop(st, 'Mult', a, b)
            return self.red_sum(st, p) if isinstance(p, ArrV) else p
        return self.unknown('dot')

    n_inner = n_dot

    def n_vdot(self, st, args, kw):
        return self.n_dot(st, [self.np_map1(st, 'conj', args[0]), args[1]], kw)

    def n_linalg_norm(self, st, args, kw):
        if len(args) > 1 or kw:
            return self.unknown('norm options')
        a = self.np_map1(st, 'abs', args[0])
        if not isinstance(a, ArrV):
            return a
        s = self.red_sum(st, self.arr_map(st, lambda x: x * x, a))
        return NumV(T.sqrt_(s.t), 'npfloat')

    def n_all(self, st, args, kw):
        return self.allany(st, args, kw, True)

    def n_any(self, st, args, kw):
        return self.allany(st, args, kw, False)

    def allany(self, st, args, kw, al):
        a = args[0]
        n = self.as_num(a)
        if n is not None:
            return BoolV(ne(n.t, ZERO), True)
        e = self.arrlike(st, a)
        if e is None or kw or len(args) > 1:
            return UnkV('np.all/any')
        ps = [fresh_atom('s') for _ in e[0]]
        b = e[2]([from_atom(p) for p in ps])
        z = ite(eq(b, ZERO), ONE, ZERO) if al else ite(eq(b, ZERO), ZERO, ONE)
        for p, n in reversed(list(zip(ps, e[0]))):
            z = mk_sum(p, ZERO, n - 1, z)
        return BoolV(eq(z, ZERO) if al else ne(z, ZERO), True)

    def n_fft_fft(self, st, args, kw):
        return self.fft(st, args[0], 1, -1, args[1:], kw)

    def n_fft_ifft(self, st, args, kw):
        return self.fft(st, args[0], 1, 1, args[1:], kw)

    def n_fft_fft2(self, st, args, kw):
        return self.fft(st, args[0], 2, -1, args[1:], kw)

    def n_fft_ifft2(self, st, args, kw):
        return self.fft(st, args[0], 2, 1, args[1:], kw)

    def n_concatenate(self, st, args, kw):
        ax = self.axis_of(args, kw, 1)
        if ax == '?':
            return self.unknown('axis')
        return self.concat(st, args[0], ax or 0)

    def n_hstack(self, st, args, kw):
        xs = self.const_items(st, args[0])
        nd = max([len(x.shape) for x in xs if isinstance(x, ArrV)] + [1]) if xs is not None else 1
        return self.concat(st, args[0], 0 if nd == 1 else 1)

    def n_vstack(self, st, args, kw):
        xs = self.const_items(st, args[0])
        if xs is None:
            return self.unknown('vstack')
        ys = []
        for x in xs:
            if isinstance(x, ArrV) and len(x.shape) == 1:
                x = self.getitem(st, x, TupleV([NONE, SliceV(NONE, NONE, NONE)]))
            ys.append(x)
        return self.concat(st, TupleV(ys), 0)

    def n_append(self, st, args, kw):
        if len(args) == 2 and not kw:
            b = args[1]
            if self.as_num(b) is not None:
                b = TupleV([b])
            return self.concat(st, TupleV([args[0], b]), 0)
        return self.unknown('append')

    def n_linspace(self, st, args, kw):
        if set(kw) - {'num', 'start', 'stop', 'endpoint'}:
            return self.unknown('linspace options')
        a, b = [self.as_num(x) for x in (args[0] if args else kw['start'],
                                         args[1] if len(args) > 1 else kw['stop'])]
        nv = args[2] if len(args) > 2 else kw.get('num', NumV(num(50), 'int'))
        ep = args[3] if len(args) > 3 else kw.get('endpoint', BoolV(TRUE))
        n = self.as_num(nv)
        if a is None or b is None or n is None or not isinstance(ep, BoolV) or ep.c.k not in ('T', 'F'):
            return self.unknown('linspace')
        if n.ty not in ('int', 'npint', 'bool'):
            self.terr(st, 'object cannot be interpreted as an integer')
        self.raise_if(st, lt(n.t, ZERO), 'ValueError', StrV('Number of samples must be non-negative'))
        dt = 'complex128' if 'complex' in a.ty + b.ty else 'float64'
        div = n.t - 1 if ep.c.k == 'T' else n.t

        def f(ix):
            if div.is_zero():
                return a.t
            x = a.t + (b.t - a.t) * ix[0] * T.inverse(div)
            if ep.c.k == 'T' and st.F.decide(lt(ONE, n.t)) is not True:
                x = ite(eq(n.t, ONE), a.t, x)
            return x
        return self.mkarr(st, [n.t], f, dt)

    def n_arange(self, st, args, kw):
        ns = [self.as_num(x) for x in args]
        if any(n is None for n in ns):
            return self.unknown('arange')
        d = self.dtype_of(kw.get('dtype'))
        if d == '?':
            return self.unknown('dtype')
        lo, step = NumV(ZERO, 'int'), NumV(ONE, 'int')
        if len(ns) == 1:
            hi = ns[0]
        else:
            lo, hi = ns[0], ns[1]
            if len(ns) > 2:
                step = ns[2]
        if any(x.t.sort != 'int' for x in (lo, hi, step)) or step.t.int_const() in (None, 0):
            return self.unknown('arange')
        n = self.range_len(st, RangeV(lo.t, hi.t, step.t))
        dt = 'int64'
        for x in (lo, hi, step):
            dt = dt_join(dt, TY2DT[x.ty])
        return self.mkarr(st, [n], lambda ix: lo.t + step.t * ix[0], d or dt)

    def n_sort(self, st, args, kw):
        a = args[0]
        e = self.arrlike(st, a)
        if e is None or len(e[0]) != 1 or kw or len(args) > 1:
            return self.unknown('sort')
        ps = [fresh_atom('p')]
        lam = mk_lam(ps, e[2]([from_atom(ps[0])]))
        srt = dt_sort(e[1])
        return self.mkarr(st, e[0], lambda ix: from_atom(mk_atom('sort', (e[0][0], lam, ix[0]), srt)), e[1],
                          extra=('perm', lam))

    def n_copyto(self, st, args, kw):
        if len(args) != 2 or kw or not isinstance(args[0], ArrV):
            return self.inplace_unknown(st, 'copyto', args)
        self.arr_write(st, args[0], args[1])
        return NONE

    def n_place(self, st, args, kw):
        if len(args) != 3 or kw or not isinstance(args[0], ArrV):
            return self.inplace_unknown(st, 'place', args)
        self.setitem(st, args[0], args[1], args[2])
        return NONE

    n_putmask = n_place

    def inplace_unknown(self, st, name, args):
        if args and isinstance(args[0], ArrV):
            self.clobber(st, args[0])
        return self.unknown('np.' + name)

    def n_put(self, st, args, kw):
        return self.inplace_unknown(st, 'put', args)

    n_fill_diagonal = n_put_along_axis = n_random_shuffle = n_add_at = n_subtract_at = n_multiply_at = n_put

    def n_where(self, st, args, kw):
        if len(args) != 3:
            return self.unknown('where')
        return self.elementwise(st, args, lambda x: ite(ne(x[0], ZERO), x[1], x[2]),
                                lambda d: dt_join(d[1], d[2]))

    def n_maximum(self, st, args, kw):
        return self.elementwise(st, args, lambda x: ite(le(x[1], x[0]), x[0], x[1]), lambda d: dt_join(*d))

    def n_minimum(self, st, args, kw):
        return self.elementwise(st, args, lambda x: ite(le(x[0], x[1]), x[0], x[1]), lambda d: dt_join(*d))

    def n_outer(self, st, args, kw):
        a, b = self.arrlike(st, args[0]), self.arrlike(st, args[1])
        if a is None or b is None or len(a[0]) != 1 or len(b[0]) != 1:
            return self.unknown('outer')
        return self.mkarr(st, [a[0][0], b[0][0]], lambda ix: a[2]([ix[0]]) * b[2]([ix[1]]), dt_join(a[1], b[1]))

    def n_roll(self, st, args, kw):
        a = args[0]
        ax = self.axis_of(args, kw, 2)
        s = self.as_num(args[1] if len(args) > 1 else kw.get('shift'))
        e = self.arrlike(st, a)
        if e is None or ax == '?' or s is None:
            return self.unknown('roll')
        if ax is None:
            if len(e[0]) != 1:
                return self.unknown('roll flat')
            ax = 0
        if ax < 0:
            ax += len(e[0])
        n = e[0][ax]
        up = st.F.decide(c_and([le(ZERO, s.t), le(s.t, n)])) is True
        down = st.F.decide(c_and([le(s.t, ZERO), le(-n, s.t)])) is True

        def f(ix):
            j = list(ix)
            x = ix[ax] - s.t
            if up:
                x = ite(lt(x, ZERO), x + n, x)
            elif down:
                x = ite(le(n, x), x - n, x)
            else:
                x = T.mod_(x, n)
            j[ax] = x
            return e[2](j)
        return self.mkarr(st, e[0], f, e[1])

    def flip(self, st, a, axes):
        if not isinstance(a, ArrV):
            return self.unknown('flip')
        return self.getitem(st, a, TupleV([SliceV(NONE, NONE, NumV(num(-1), 'int')) if k in axes else
                                           SliceV(NONE, NONE, NONE) for k in range(len(a.shape))]))

    def n_flipud(self, st, args, kw):
        return self.flip(st, args[0], [0])

    def n_fliplr(self, st, args, kw):
        return self.flip(st, args[0], [1])

    def n_flip(self, st, args, kw):
        ax = self.axis_of(args, kw, 1)
        if ax == '?' or not isinstance(args[0], ArrV):
            return self.unknown('flip')
        nd = len(args[0].shape)
        return self.flip(st, args[0], range(nd) if ax is None else [ax % nd])

    def n_transpose(self, st, args, kw):
        if isinstance(args[0], ArrV) and len(args) == 1:
            return self.arr_attr(st, args[0], 'T')
        return self.unknown('transpose')

    def n_reshape(self, st, args, kw):
        if isinstance(args[0], ArrV):
            return self.reshape(st, args[0], args[1:] or [kw.get('newshape') or kw.get('shape')])
        return self.unknown('reshape')

    def n_ravel(self, st, args, kw):
        return self.arr_method(st, 'ravel', args[0], [], {}) if isinstance(args[0], ArrV) else self.unknown('ravel')

    def n_tile(self, st, args, kw):
        e = self.arrlike(st, args[0])
        r = self.shape_arg(st, args[1])
        if e is None or r is None:
            return self.unknown('tile')
        sh = list(e[0])
        nd = max(len(sh), len(r))
        r = [ONE] * (nd - len(r)) + list(r)
        pad = nd - len(sh)
        sh2 = [ONE] * pad + sh

        def f(ix):
            return e[2]([T.mod_(ix[k], sh2[k]) if r[k] != ONE else ix[k] for k in range(pad, nd)])
        return self.mkarr(st, [a * b for a, b in zip(sh2, r)], f, e[1])

    def n_shape(self, st, args, kw):
        e = self.arrlike(st, args[0])
        return self.unknown('shape') if e is None else TupleV([NumV(x, 'int') for x in e[0]])

    def n_size(self, st, args, kw):
        e = self.arrlike(st, args[0])
        if e is None:
            return self.unknown('size')
        n = ONE
        for x in e[0]:
            n = n * x
        return NumV(n, 'int')

    def n_ndim(self, st, args, kw):
        e = self.arrlike(st, args[0])
        return self.unknown('ndim') if e is None else NumV(num(len(e[0])), 'int')

    def n_isscalar(self, st, args, kw):
        return BoolV(cbool(isinstance(args[0], (NumV, BoolV, StrV))))

    def n_iscomplexobj(self, st, args, kw):
        v = args[0]
        if isinstance(v, ArrV):
            return BoolV(cbool(v.dtype == 'complex128'))
        if isinstance(v, NumV):
            return BoolV(cbool('complex' in v.ty))
        return UnkV('iscomplexobj')

    def n_isrealobj(self, st, args, kw):
        r = self.n_iscomplexobj(st, args, kw)
        return BoolV(c_not(r.c)) if isinstance(r, BoolV) else r

    def n_array_equal(self, st, args, kw):
        a, b = args
        if isinstance(a, ArrV) and isinstance(b, ArrV):
            if len(a.shape) != len(b.shape):
                return BoolV(FALSE)
            c = c_and([eq(x, y) for x, y in zip(a.shape, b.shape)])
            if st.F.decide(c) is True:
                r = self.arr_compare(st, 'Eq', a, b)
                return self.n_all(st, [r], {})
        return UnkV('array_equal')

    def n_broadcast_to(self, st, args, kw):
        e = self.arrlike(st, args[0])
        sh = self.shape_arg(st, args[1] if len(args) > 1 else kw.get('shape'))
        if e is None or sh is None:
            return self.unknown('broadcast_to')
        shape, ads = self.bcast(st, [e[0], tuple(sh)])
        return self.mkarr(st, shape, lambda ix: e[2](ads[0](ix)), e[1])

    def n_meshgrid(self, st, args, kw):
        es = [self.arrlike(st, a) for a in args]
        ind = kw.get('indexing')
        ij = isinstance(ind, StrV) and ind.const() == 'ij'
        if any(e is None or len(e[0]) != 1 for e in es) or len(es) != 2 or (kw and not ij and 'indexing' not in kw):
            return self.unknown('meshgrid')
        a, b = es
        if ij:
            sh = [a[0][0], b[0][0]]
            return self.new_list(st, [self.mkarr(st, sh, lambda ix: a[2]([ix[0]]), a[1]),
                                      self.mkarr(st, sh, lambda ix: b[2]([ix[1]]), b[1])])
        sh = [b[0][0], a[0][0]]
        return self.new_list(st, [self.mkarr(st, sh, lambda ix: a[2]([ix[1]]), a[1]),
                                  self.mkarr(st, sh, lambda ix: b[2]([ix[0]]), b[1])])

    def n_errstate(self, st, args, kw):
        return BuiltinV('errstate()')

    def n_seterr(self, st, args, kw):
        return UnkV('seterr')

    # ------------------------------------------------------------------ random
    def n_random(self, st, name, args, kw):
        self.hid(st)
        self.trace.append(('rng', name, self.site))
        b = name.split('.')[1]
        if b in ('seed', 'RandomState', 'default_rng', 'set_state'):
            st.mut('%rng').d['k'] = NumV(unk('reseeded', 'int'), 'int')
            return NONE if b in ('seed', 'set_state') else self.unknown('generator')
        if b in ('normal', 'uniform', 'standard_normal', 'randn', 'rand', 'random', 'random_sample', 'ranf', 'sample'):
            def arg(k, n, d):
                v = args[k] if len(args) > k else kw.get(n)
                return d if v is None else v
            if b == 'normal':
                p0, p1, size = arg(0, 'loc', NumV(ZERO)), arg(1, 'scale', NumV(ONE)), arg(2, 'size', NONE)
            elif b == 'uniform':
                p0, p1, size = arg(0, 'low', NumV(ZERO)), arg(1, 'high', NumV(ONE)), arg(2, 'size', NONE)
            elif b in ('randn', 'rand'):
                p0, p1, size = NumV(ZERO), NumV(ONE), (TupleV(args) if args else NONE)
            else:
                p0, p1, size = NumV(ZERO), NumV(ONE), arg(0, 'size', NONE)
            n0, n1 = self.as_num(p0), self.as_num(p1)
            if n0 is None or n1 is None:
                return self.unknown('random parameters')
            normal = b in ('normal', 'standard_normal', 'randn')
            src = mk_atom('sym', ('%gauss' if normal else '%unif', 'arr', 'real'), 'real')
            k = st.get('%rng').d['k'].t
            if normal:
                self.raise_if(st, lt(n1.t, ZERO), 'ValueError', StrV('scale < 0'))
                f = lambda t: n0.t + n1.t * sel(src, [k + t], 'real')
            else:
                f = lambda t: n0.t + (n1.t - n0.t) * sel(src, [k + t], 'real')
            if isinstance(size, NoneT):
                st.mut('%rng').d['k'] = NumV(k + 1, 'int')
                return NumV(f(ZERO), 'float')
            sh = self.shape_arg(st, size)
            if sh is None:
                return self.unknown('random size')
            self.nonneg_shape(st, sh)
            tot = ONE
            for x in sh:
                tot = tot * x
            st.mut('%rng').d['k'] = NumV(k + tot, 'int')

            def g(ix):
                lin = ZERO
                for x, n in zip(ix, sh):
                    lin = lin * n + x
                return f(lin)
            return self.mkarr(st, sh, g, 'float64')
        st.mut('%rng').d['k'] = NumV(unk('other draw', 'int'), 'int')
        return self.unknown('np.' + name)


# ---------------------------------------------------------------------- text helpers
def exact_spec(spec):
    m = _re.match(r'^[+ ]?\.(\d+)([eEgG])$', spec)
    if not m:
        return False
    p = int(m.group(1))
    return p >= 16 if m.group(2) in 'eE' else p >= 17


def strip_parts(s, how='strip'):
    ps = list(s.parts)
    if ps and isinstance(ps[0], str) and how in ('strip', 'lstrip'):
        ps[0] = ps[0].lstrip()
    if ps and isinstance(ps[-1], str) and how in ('strip', 'rstrip'):
        ps[-1] = ps[-1].rstrip()
    return StrV(*ps)


def plain_field(p):
    """formatted number whose text has no blanks or separators"""
    if p[0] != 'f':
        return False
    v, spec, conv = p[1], p[2], p[3]
    if isinstance(v, (NumV, BoolV)) and conv in (None, 's', 'r'):
        return ',' not in spec and '_' not in spec and ' ' not in spec and \
            not _re.match(r'^[<>^=]?\d', spec)
    return False


def splittable(s, sep):
    for p in s.parts:
        if not isinstance(p, str) and not plain_field(p):
            return False
    return bool(sep) and all(ch not in '0123456789.+-einfajEINF()' for ch in sep)


def lines_of(s, keep=True):
    """split into lines (list of part lists)"""
    out, cur = [], []
    for p in s.parts:
        if isinstance(p, str):
            ls = p.split('\n')
            for k, x in enumerate(ls[:-1]):
                cur.append(x + ('\n' if keep else ''))
                out.append(cur)
                cur = []
            if ls[-1]:
                cur.append(ls[-1])
        else:
            cur.append(p)
    if cur:
        out.append(cur)
    return out


def ends_nl(s):
    return bool(s.parts) and isinstance(s.parts[-1], str) and s.parts[-1].endswith('\n')


def one_line(v):
    if isinstance(v, PhiV):
        return one_line(v.a) and one_line(v.b)
    return isinstance(v, StrV) and ends_nl(v) and len(lines_of(v)) == 1


def line_segs(segs):
    """file segments -> list segments of lines; None when lines straddle loops"""
    out = []
    pend = []

    def flush():
        if pend:
            s = StrV(*[p for x in pend for p in x.parts])
            for l in lines_of(s):
                out.append(('one', StrV(*l)))
            del pend[:]
    for s in segs:
        if s[0] == 'one':
            if isinstance(s[1], PhiV):
                # alternatives that are one line each
                if pend and not ends_nl(pend[-1]) or not one_line(s[1]):
                    return None
                flush()
                out.append(s)
                continue
            if not isinstance(s[1], StrV):
                return None
            pend.append(s[1])
        elif s[0] == 'rep':
            if pend and not ends_nl(pend[-1]):
                return None
            flush()
            sub = line_segs(s[3])
            if sub is None:
                return None
            if not whole_lines(s[3]):
                return None
            out.append(('rep', s[1], s[2], tuple(sub)))
        elif s[0] == 'real':
            try:
                with open(s[1]) as f:
                    pend.append(StrV(f.read()))
            except IOError:
                return None
        else:
            return None
    flush()
    return out


def whole_lines(segs):
    last = None
    for s in segs:
        last = s
    if last is None:
        return True
    if last[0] == 'one':
        return one_line(last[1]) if isinstance(last[1], PhiV) else ends_nl(last[1])
    return whole_lines(last[3])


def rev_segs(segs):
    out = []
    for s in reversed(segs):
        if s[0] == 'one':
            out.append(s)
        elif s[0] == 'rep':
            sub = rev_segs(list(s[3]))
            if sub is None:
                return None
            # iteration k of the reversed list is iteration n-1-k
            return None
        else:
            return None
    return out


def os_exists(p, root):
    import os
    return os.path.exists(p)


def _nonneg_t(x):
    if not x.t:
        return True
    for m, c in x.t.items():
        if c < 0:
            return False
        for a, e in m:
            if e % 2 == 0 and a.sort != 'complex':
                continue
            if a.kind in ('abs', 'cabs', 'sqrt', 'maxf', 'pi'):
                continue
            return False
    return True
