"""C18 pipeline formulas, C17 linearity, C11 acceptance, C12 dimensions of the
four transforms."""
from .fix import *
from sa.kern import *
from sa.kern import Kernels
from sa.lin import Lin
from . import ops

KER = Kernels()
IMAG = T.I


def kworld(ck, use_cext):
    w = ck.world(use_cext=use_cext, native=KER, key='kern')
    KER.clear()
    KER.install(w.I)
    return w


D = 2 * R - 2


def spec2d(name):
    """normalised two-dimensional spectrum of the doubled data at signed row
    frequency g (rows at and beyond the Nyquist row are dropped) and column j"""
    ps = [T.fresh_atom('d'), T.fresh_atom('d')]
    lam = T.mk_lam(ps, sarr(name, *[from_atom(p) for p in ps]))
    inv = T.inverse(D * C)

    def e(g, j):
        g = num(g)
        v = T.dft_(-1, [D, C], lam, [ite(le(ZERO, g), g, g + D), j]) * inv
        return ite(le(abs_(g), R - 2), v, ZERO)
    return e


def rowf(i):
    return ite(lt(i, R), i, i - 2 * R)


def colf(j):
    return ite(lt(2 * j, C), j, j - C)


def sin_(e):
    return lambda f, j: (e(f - 1, j) - e(f + 1, j)) / (2 * IMAG)


def kernel(name, shape, body, ints):
    ps = [T.fresh_atom('d') for _ in shape]
    lam = T.mk_lam(ps, body(*[from_atom(p) for p in ps]))
    return lambda *ix: T.dft_(name, [num(s) for s in shape], lam, list(ints) + [num(x) for x in ix])


def full(i, j):
    """all points of the doubled spectrum, split where the pipeline switches rows"""
    return ([i, j], [le(ZERO, i), lt(i, 2 * R), le(ZERO, j), lt(j, C)],
            [lt(i, R), eq(i, ZERO), eq(i, R), eq(i, R + 1), eq(i, R - 1), eq(i, R - 2), eq(i, R + 2), eq(i, 2 * R - 1), lt(2 * j, C)], [])


def lemma(K, at, *ix):
    return Lemma(K(*ix).atoms()[0], at)


def invroot(n_):
    return T.inverse(T.sqrt_(n_ * (n_ + 1)))


def window_facts():
    return [le(ZERO, M), le(M, N), lt(N, R - 1), le(2 * M + 2, C)]


def t_spht(cext):
    def run(ck):
        w = kworld(ck, cext)
        st = w.start(*patt_facts())
        st, p = dpatt(w, st)
        st = st.fork(*window_facts())
        s = fn_site(w, 'spht')
        o = w.call(st, 'spht', p, iv(N), iv(M))
        ck.raises('spht', o, {}, st, s)
        if not o.ok:
            return
        e = sin_(spec2d('p'))
        K = kernel('fc_to_sc', [2 * R, C], lambda i, j: e(rowf(i), j), [N, M])
        expect_scoefs(ck, 'spht', w, o.st, o.val, N, M, lambda i, j: K(pos(i, j, N)), s, lemmas=[lemma(K, full, ZERO)])
    return run


def t_vspht(cext, comp):
    def run(ck):
        w = kworld(ck, cext)
        st = w.start(*patt_facts())
        st, p = tdpatt(w, st)
        st = st.fork(*window_facts())
        s = fn_site(w, 'vspht')
        o = w.call(st, 'vspht', p, iv(N), iv(M))
        ck.raises('vspht', o, {}, st, s)
        if not o.ok:
            return
        t, q = spec2d('tp'), spec2d('pp')
        j1 = IMAG

        def lf(a, b):
            sb = sin_(b)
            return lambda i, j: j1 * (j1 * colf(j) * a(rowf(i), j) - j1 * rowf(i) * sb(rowf(i), j))
        arg = lf(t, q) if comp == 0 else lf(lambda f, j: -j1 * q(f, j), lambda f, j: j1 * t(f, j))
        K = kernel('fc_to_sc', [2 * R, C], arg, [N, M])
        if not expect_class(ck, 'vspht class', w, o.st, o.val, 'VectorCoefs', s):
            return
        ck.eq('vspht nmax', as_term(w, o.st, prop(w, o.st, o.val, 'nmax')), N, o.st, s)
        ck.eq('vspht mmax', as_term(w, o.st, prop(w, o.st, o.val, 'mmax')), M, o.st, s)
        i, j = isym('qn'), isym('qm')
        s2 = o.st.fork(valid(i, j, N, M), le(ONE, i))
        got = mode(w, s2, o.val, i, j)[comp]
        want = K(pos(i, j, N)) * invroot(i)
        ck.eq('vspht component %d' % (comp + 1), got, want, s2, s, splits=[eq(j, ZERO), lt(ZERO, j)],
              hints=[(abs_(j) - 1, N - abs_(j))], lemmas=[lemma(K, full, ZERO)])
    return run


def lin(name, shape, body):
    ps = [T.fresh_atom('d') for _ in shape]
    return T.mk_lam(ps, body(*[from_atom(p) for p in ps]))


def inverse_dft(body):
    """inverse transform of a D x C spectrum, scaled by the number of samples"""
    lam = lin('', [D, C], body)
    return lambda i, j: T.dft_(1, [D, C], lam, [num(i), num(j)])


def inv_facts():
    return [le(TWO, R), eq(mod_(C, TWO), ZERO), le(N + 2, R), le(2 * M + 2, C)]


def t_ispht(cext, real=False):
    def run(ck):
        w = kworld(ck, cext)
        st = w.start(*size_facts())
        st = st.fork(le(TWO, R), eq(mod_(C, TWO), ZERO), lt(N, R), le(2 * M + 2, C))
        st, c = scoefs(w, st, dtype='float64' if real else 'complex128')
        s = fn_site(w, 'ispht')
        o = w.call(st, 'ispht', c, iv(R), iv(C))
        ck.raises('ispht', o, {}, st, s)
        if not o.ok:
            return
        if not expect_class(ck, 'ispht class', w, o.st, o.val, 'ScalarPatternUniform', s):
            return
        K = kernel('sc_to_fc', [ncoef(N, M)], lambda q: sarr('c', q, sort='real' if real else 'complex'), [N, M, D, C])
        f = inverse_dft(lambda i, j: K(i, j))
        d = prop(w, o.st, o.val, 'doublesphere')
        expect_array(ck, 'ispht', w, o.st, d, [D, C], f, s)
        d = prop(w, o.st, o.val, 'cdata')
        expect_array(ck, 'ispht cdata', w, o.st, d, [R, C], f, s)
    return run


def deg(q):
    return from_atom(mk_atom('pyfn', ('degree', q, N, M), 'int'))


def modes(q):
    """storage positions as the positions of the valid modes"""
    i, j = from_atom(T.fresh_atom('n')), from_atom(T.fresh_atom('m'))
    sp = [eq(j, ZERO), lt(ZERO, j)]
    return [pos(i, j, N)], [valid(i, j, N, M)], sp, [(abs_(j) - 1, N - abs_(j))]


class WindowLemma(Lemma):
    """the wanted array is given by mode: value(n, m)"""
    def same(self, ck, a, np_, F):
        w = self.want
        for x, y in list(zip(a.args[1], w.args[1])) + list(zip(a.args[3:3 + np_], w.args[3:3 + np_])):
            if x != y and FA.equal(x, y, F) is not True:
                return False
        i, j = from_atom(T.fresh_atom('n')), from_atom(T.fresh_atom('m'))
        return ck.eq_cases(a.args[2](pos(i, j, N)), self.at(i, j), F.add(valid(i, j, N, M)),
                           [eq(i, ZERO), eq(j, ZERO), lt(ZERO, j)], [(abs_(j) - 1, N - abs_(j))]) is True


def t_vispht(cext, comp):
    def run(ck):
        w = kworld(ck, cext)
        st = w.start(*size_facts())
        st = st.fork(*inv_facts())
        st, c = vcoefs(w, st)
        s = fn_site(w, 'vispht')
        o = w.call(st, 'vispht', c, iv(R), iv(C))
        ck.raises('vispht', o, {}, st, s)
        if not o.ok:
            return
        if not expect_class(ck, 'vispht class', w, o.st, o.val, 'TransversePatternUniform', s):
            return

        def K(nm):
            body = lambda q: ite(eq(q, ZERO), ZERO, sarr(nm, q) * invroot(deg(q)))
            k = kernel('sc_to_fc', [ncoef(N, M)], body, [N, M, D, C])
            lm = WindowLemma(k(ZERO, ZERO).atoms()[0],
                             lambda i, j: ite(eq(i, ZERO), ZERO, sarr(nm, pos(i, j, N)) * invroot(i)))
            return k, lm
        K1, l1 = K('v1')
        K2, l2 = K('v2')
        fr = lambda i: ite(lt(i, R - 1), i, i - D)

        def ds(k):
            q = kernel('divsin', [D, C], lambda i, j: IMAG * colf(j) * k(i, j), [])
            lm = lemma(q, lambda i, j: ([i, j], [le(ZERO, i), lt(i, D), le(ZERO, j), lt(j, C)],
                                        [lt(2 * j, C), lt(i, R - 1)], []), ZERO, ZERO)
            return q, lm
        S1, l3 = ds(K1)
        S2, l4 = ds(K2)
        if comp == 0:
            f = inverse_dft(lambda i, j: IMAG * S1(i, j) - IMAG * fr(i) * K2(i, j))
        else:
            f = inverse_dft(lambda i, j: fr(i) * K1(i, j) - S2(i, j))
        d = prop(w, o.st, o.val, 'doublesphere')
        if not expect_class(ck, 'vispht components', w, o.st, d, 'tuple', s):
            return
        expect_array(ck, 'vispht component %d' % (comp + 1), w, o.st, d.items[comp], [D, C], f, s, lemmas=[l1, l2, l3, l4])
    return run


# ---------------------------------------------------------------- C11, C12
def expect_shape(ck, name, w, st, v, shape, s):
    if isinstance(v, PhiV):
        for g, x in ((v.c, v.a), (c_not(v.c), v.b)):
            s2 = st.fork(g)
            if not s2.F.contradictory():
                expect_shape(ck, name, w, s2, x, shape, s)
        return
    if not isinstance(v, ArrV):
        expect_class(ck, name + ' is an array', w, st, v, 'ndarray', s)
        return
    if len(v.shape) != len(shape):
        ck.violated(name + ' rank', 'rank %d, not %d' % (len(v.shape), len(shape)), s)
        return
    for i, (x, y) in enumerate(zip(v.shape, shape)):
        ck.eq('%s shape[%d]' % (name, i), x, y, st, s)


def parts(w, st, o, names):
    for nm in names:
        v = prop(w, st, o, nm)
        for i, x in enumerate(v.items if isinstance(v, TupleV) else [v]):
            yield nm + (' %d' % i if isinstance(v, TupleV) else ''), x


FWD = [('spht', dpatt), ('vspht', tdpatt)]
INV = [('ispht', scoefs), ('vispht', vcoefs)]


def none_or(x):
    return NONE if x is None else iv(x)


def half(c):
    return c * T.inverse(TWO)              # the number of columns is even


def t_fwd_args(fn, mk, cext, dims=False):
    """raising condition and result size of a forward transform"""
    def run(ck):
        w = kworld(ck, cext)
        st = w.start(*patt_facts())
        st, p = mk(w, st)
        s = fn_site(w, fn)
        for lab, a, b in (('nmax, mmax', N, M), ('nmax', N, None), ('mmax', None, M), ('defaults', None, None)):
            n_ = N if a is not None else R - 2
            m_ = M if b is not None else (N if a is not None else half(C) - 1)
            ok = c_and([le(ZERO, m_), le(m_, n_), le(n_, R - 2), lt(2 * m_, C)])
            kw = {}
            if a is not None:
                kw['nmax'] = iv(N)
            if b is not None:
                kw['mmax'] = iv(M)
            o = w.call(st, fn, p, **kw)
            if not dims:
                ck.raises('%s(%s)' % (fn, lab), o, {'ValueError': c_not(ok)}, st, s)
                if not o.ok:
                    ck.undecided('%s(%s) completes' % (fn, lab), 'no result', s)
            elif o.ok:
                o.st = o.st.fork(ok)
                if expect_class(ck, '%s(%s) class' % (fn, lab), w, o.st, o.val,
                                'VectorCoefs' if fn == 'vspht' else 'ScalarCoefs', s):
                    ck.eq('%s(%s) nmax' % (fn, lab), as_term(w, o.st, prop(w, o.st, o.val, 'nmax')), n_, o.st, s)
                    ck.eq('%s(%s) mmax' % (fn, lab), as_term(w, o.st, prop(w, o.st, o.val, 'mmax')), m_, o.st, s)
            else:
                ck.undecided('%s(%s) completes' % (fn, lab), 'no result', s)
    return ('%s %s%s' % (fn, 'sizes' if dims else 'arguments', '' if cext else ' (pure Python)'), run)


def t_inv_args(fn, mk, cext, dims=False):
    def run(ck):
        w = kworld(ck, cext)
        st = w.start(*size_facts())
        st, c = mk(w, st)
        s = fn_site(w, fn)
        for lab, a, b in (('nrows, ncols', R, C), ('nrows', R, None), ('ncols', None, C), ('defaults', None, None)):
            r_ = R if a is not None else N + 2
            c_ = C if b is not None else 2 * M + 2
            low = N + 2 if fn == 'vispht' else N + 1
            ok = c_and([le(low, r_), le(TWO, r_), le(2 * M + 2, c_), eq(mod_(c_, TWO), ZERO)])
            kw = {}
            if a is not None:
                kw['nrows'] = iv(R)
            if b is not None:
                kw['ncols'] = iv(C)
            o = w.call(st, fn, c, **kw)
            if not dims:
                ck.raises('%s(%s)' % (fn, lab), o, {'ValueError': c_not(ok)}, st, s)
                if not o.ok:
                    ck.undecided('%s(%s) completes' % (fn, lab), 'no result', s)
            elif o.ok:
                o.st = o.st.fork(ok)
                if expect_class(ck, '%s(%s) class' % (fn, lab), w, o.st, o.val,
                                'TransversePatternUniform' if fn == 'vispht' else 'ScalarPatternUniform', s):
                    ck.eq('%s(%s) nrows' % (fn, lab), as_term(w, o.st, prop(w, o.st, o.val, 'nrows')), r_, o.st, s)
                    ck.eq('%s(%s) ncols' % (fn, lab), as_term(w, o.st, prop(w, o.st, o.val, 'ncols')), c_, o.st, s)
                    for nm, x in parts(w, o.st, o.val, ['array'] if fn == 'vispht' else ['cdata']):
                        expect_shape(ck, '%s(%s) %s' % (fn, lab, nm), w, o.st, x, [r_, c_], s)
                    for nm, x in parts(w, o.st, o.val, ['doublesphere']):
                        expect_shape(ck, '%s(%s) %s' % (fn, lab, nm), w, o.st, x, [2 * r_ - 2, c_], s)
            else:
                ck.undecided('%s(%s) completes' % (fn, lab), 'no result', s)
    return ('%s %s%s' % (fn, 'sizes' if dims else 'arguments', '' if cext else ' (pure Python)'), run)


# ---------------------------------------------------------------- C17
AL, BE = sym('alpha', 'complex'), sym('beta', 'complex')


def t_linear(fn, cext):
    """the result of a transform is linear in the data: by the linearity
    judgement on the result's term; when that does not apply, by comparison of
    the result for a combination with the combination of the results"""
    vec = fn in ('vspht', 'vispht')
    fwd = fn in ('spht', 'vspht')

    def run(ck):
        w = kworld(ck, cext)
        st = w.start(*(patt_facts() if fwd else size_facts()))
        st = st.fork(*(window_facts() if fwd else inv_facts()))
        s = fn_site(w, fn)
        dims = [D, C] if fwd else [ncoef(N, M)]
        el = lambda nm: (lambda ix: sarr(nm, *ix))

        def apply(st, fs):
            ar = [w.I.mkarr(st, dims, f, 'complex128', 'input') for f in fs]
            if fwd:
                a = w.must(w.call(st, 'TransversePatternUniform' if vec else 'ScalarPatternUniform', *ar, doublesphere=TRUE_V))
                o = w.call(a[0], fn, a[1], iv(N), iv(M))
            else:
                a = w.must(w.call(st, 'VectorCoefs' if vec else 'ScalarCoefs', *(ar + [iv(N), iv(M)])))
                o = w.call(a[0], fn, a[1], iv(R), iv(C))
            if not o.ok:
                raise Skip('%s: no normal completion' % fn)
            if fwd:
                i, j = isym('qn'), isym('qm')
                s2 = o.st.fork(valid(i, j, N, M), *([le(ONE, i)] if vec else []))
                v = mode(w, s2, o.val, i, j)
                return o, s2, list(v) if vec else [v]
            i, j = isym('i0'), isym('i1')
            s2 = o.st.fork(le(ZERO, i), lt(i, D), le(ZERO, j), lt(j, C))
            d = prop(w, s2, o.val, 'doublesphere')
            return o, s2, [elem(w, s2, x, i, j) for x in (d.items if isinstance(d, TupleV) else [d])]
        na = ['pa1', 'pa2'] if vec else ['pa']
        nb = ['pb1', 'pb2'] if vec else ['pb']
        o, s2, va = apply(st, [el(x) for x in na])
        L = Lin(na)
        for r in o.recs:
            c = c_and(o.conds(r[0]))
            if L.depends(c):
                ck.undecided('%s raises independently of the data' % fn, clip(c), s)
        for q, x in enumerate(va):
            why = L.value(x)
            name = '%s component %d' % (fn, q + 1)
            if why is None:
                ck.proved(name, s)
                continue
            _, _, vb = apply(st, [el(x) for x in nb])
            _, s3, vab = apply(st, [(lambda x, y: (lambda ix: AL * sarr(x, *ix) + BE * sarr(y, *ix)))(x, y) for x, y in zip(na, nb)])
            ck.eq(name, vab[q], AL * x + BE * vb[q], s3, s)
    return ('%s%s' % (fn, '' if cext else ' (pure Python)'), run)


def t_linear_divsin(ck):
    w, st, o, (a,), s = ops.run_op(ck, 'divsin_fc', [('f', [2 * ops.B, C])], [le(num(3), ops.B), le(ONE, C)])
    if not o.ok:
        raise Skip('no normal completion')
    i, j = isym('i'), isym('j')
    s2 = o.st.fork(le(ZERO, i), lt(i, 2 * ops.B), le(ZERO, j), lt(j, C))
    L = Lin(['f'])
    x = s2.F.simp(elem(w, s2, a, i, j))
    why = L.value(x)
    if why is None:
        return ck.proved('divsin_fc', s)
    s3 = o.st.fork(le(ZERO, i), lt(i, 2 * ops.B), le(ZERO, j), lt(j, C))

    def at(el):
        st = w.start(le(num(3), ops.B), le(ONE, C))
        b = w.I.mkarr(st, [2 * ops.B, C], el, 'complex128', 'input')
        q = w.call(st, 'ops.divsin_fc', b)
        return q.st.fork(le(ZERO, i), lt(i, 2 * ops.B), le(ZERO, j), lt(j, C)), b
    f, g = (lambda ix: sarr('f', *ix)), (lambda ix: sarr('g', *ix))
    (s1, x1), (s2, x2), (s3, x3) = at(f), at(g), at(lambda ix: AL * f(ix) + BE * g(ix))
    ck.eq('divsin_fc', elem(w, s3, x3, i, j), AL * elem(w, s1, x1, i, j) + BE * elem(w, s2, x2, i, j), s3, s)


BOTH = (False, True)
PIPE = ([('spht%s' % (' native' if c else ''), t_spht(c)) for c in BOTH]
        + [('vspht component %d%s' % (q + 1, ' native' if c else ''), t_vspht(c, q)) for c in BOTH for q in (0, 1)]
        + [('ispht%s' % (' native' if c else ''), t_ispht(c)) for c in BOTH] + [('ispht real native', t_ispht(True, True))]
        + [('vispht component %d%s' % (q + 1, ' native' if c else ''), t_vispht(c, q)) for c in BOTH for q in (0, 1)])

TASKS = {
    'C11': [t_fwd_args(f, mk, c) for f, mk in FWD for c in BOTH] + [t_inv_args(f, mk, c) for f, mk in INV for c in BOTH],
    'C12': [t_fwd_args(f, mk, c, True) for f, mk in FWD for c in BOTH] + [t_inv_args(f, mk, c, True) for f, mk in INV for c in BOTH],
    'C17': [t_linear(f, c) for f in ('spht', 'vspht', 'ispht', 'vispht') for c in BOTH] + [('divsin_fc', t_linear_divsin)],
    'C18': PIPE + [('divsin_fc', ops.t_divsin)],
}
