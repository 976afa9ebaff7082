"""C16: the transform kernels against one specification, Python and native."""
from .fix import *
from sa.kern import ynu, nextq, py_ynunm, py_nextq

L, i, j, q = isym('L'), isym('i'), isym('j'), isym('q')
IMAG = T.I
PI = T.PI if hasattr(T, 'PI') else from_atom(mk_atom('pi', (), 'real'))


# -- specification ------------------------------------------------------------------
def start_value(n_, m_):
    """y(n | n, m)"""
    v = T.fresh_atom('k')
    a = from_atom(v)
    am = abs_(m_)
    p1 = T.mk_prod(v, ZERO, n_ - 1, T.sqrt_((2 * a + 3) * T.inverse(8 * (a + 1))))
    p2 = T.mk_prod(v, ZERO, n_ - 1 - am, T.sqrt_((2 * n_ - a) * T.inverse(a + 1)))
    return T.inverse(T.sqrt_(4 * PI)) * p1 * p2


h_ = lambda *a: h(*a)


def odd(x):
    return eq(mod_(x, TWO), ONE)


def sigma(nu):
    return ite(odd(nu), -IMAG * T.inverse(nu), ZERO)


def data(name='f'):
    """Fourier data without the Nyquist row"""
    return lambda ix: ite(eq(ix[0], R), ZERO, sarr(name, *ix))


def col(m_, C=C):
    return ite(lt(m_, ZERO), m_ + C, m_)


def h(m_, k_, f=data(), R=R, C=C):
    v = T.fresh_atom('l')
    l = from_atom(v)
    x = lambda l: ite(lt(l, R), f([l + R, col(m_, C)]), f([l - R, col(m_, C)]))
    return 4 * PI * T.mk_sum(v, ZERO, 2 * R - 1, x(l) * sigma(k_ - l + R))


def analysis(n_, m_, f=data(), R=R, C=C):
    """mode (n, m) of the Fourier data f"""
    h = lambda m_, k_, f: h_(m_, k_, f, R, C)
    v = T.fresh_atom('k')
    a = from_atom(v)
    return T.ipow(-m_) * (h(m_, ZERO, f) * ynu(n_, m_, ZERO)
                          + 2 * T.mk_sum(v, ZERO, n_ - 1, h(m_, a + 1, f) * ynu(n_, m_, a + 1)))


def synthesis(i_, j_, rows, cols, c, N=N, M=M):
    """Fourier data at row i, column j of the modes c(n, m), even number of rows"""
    def g(m_, r):
        v = T.fresh_atom('k')
        a = from_atom(v)
        am = abs_(m_)
        return T.ipow(m_) * T.mk_sum(v, ZERO, N - am, c(a + am, m_) * ynu(a + am, m_, r))

    def column(m_):
        low = ite(le(i_, N), g(m_, i_), ZERO)
        r = rows - i_
        sign = ONE - 2 * mod_(m_, TWO)
        high = ite(le(r, N), sign * g(m_, r), ZERO)
        return ite(lt(rows, 2 * i_), high, low)
    return ite(le(j_, M), column(j_), ite(le(cols - M, j_), column(j_ - cols), ZERO))


# -- parts ---------------------------------------------------------------------------
def y_facts():
    return [le(ZERO, n), lt(n, L)]


def check_y(ck, get, st, name, s):
    """get(k): entry k of the array of length L"""
    at = lambda s2, k: get(s2, k)
    inr = st.fork(le(abs_(m), n))
    out = st.fork(lt(n, abs_(m)), le(ZERO, q), lt(q, L))
    ck.eq(name + ' zero when |m| > n', at(out, q), ZERO, out, s)
    s2 = inr.fork(lt(n, q), lt(q, L))
    ck.eq(name + ' zero above n', at(s2, q), ZERO, s2, s)
    s2 = inr.fork(le(ZERO, q), le(q, n), odd(n - q))
    ck.eq(name + ' zero at odd distance', at(s2, q), ZERO, s2, s)
    ck.eq(name + ' start', at(inr, n), start_value(n, m), inr, s, splits=[eq(n, ZERO), eq(n, abs_(m))])
    step = lambda k: (n - k - 1) * (n + k + 2) + (n - k - 2) * (n + k + 3) - 4 * m * m
    s2 = inr.fork(le(TWO, n))
    k = n - 2
    ck.eq(name + ' first step', (n - k) * (n + k + 1) * at(s2, k), step(k) * at(s2, n), s2, s, splits=[eq(n, abs_(m))])
    t = isym('t')
    s2 = inr.fork(le(TWO, t), le(2 * t, n))
    k = n - 2 * t
    ck.eq(name + ' step', (n - k) * (n + k + 1) * at(s2, k),
          step(k) * at(s2, k + 2) - (n - k - 3) * (n + k + 4) * at(s2, k + 4), s2, s,
          splits=[eq(n, abs_(m)), eq(t, TWO), eq(t, 3)], budget=60)


def t_ynunm(ck):
    w = ck.world()
    st = w.start(*y_facts())
    s = fn_site(w, 'pysphi.ynunm')
    o = w.call(st, 'pysphi.ynunm', iv(n), iv(m), iv(L))
    ck.raises('ynunm', o, {}, st, s)
    if o.ok:
        expect_array_shape(ck, 'ynunm', w, o.st, o.val, [L], s)
        check_y(ck, lambda s2, k: elem(w, s2, o.val, k), o.st, 'ynunm', s)


def expect_array_shape(ck, name, w, st, v, shape, s):
    if not isinstance(v, ArrV):
        raise Skip('%s: no array' % name)
    for a, b in zip(v.shape, shape):
        ck.eq(name + ' length', a, b, st, s)


def t_nextq(ck):
    w = ck.world()
    Q = isym('Q')
    st = w.start(le(ONE, Q))
    s = fn_site(w, 'pysphi.smallest_prime_factor')
    o = w.call(st, 'pysphi.smallest_prime_factor', iv(Q))
    ck.raises('smallest_prime_factor', o, {}, st, s)
    if o.ok:
        ck.holds('smallest_prime_factor is large enough', le(Q, as_term(w, o.st, o.val)), o.st, s)


_lem = {}


def holds(ck, key, task):
    """all obligations of a part hold on the current source"""
    if key not in _lem:
        sub = Ck('lemma', key, ck.tier)
        try:
            task(sub)
            _lem[key] = bool(sub.results) and all(r['status'] == 'proved' for r in sub.results)
        except Exception:
            _lem[key] = False
    return _lem[key]


def pworld(ck):
    """world in which the proved parts are replaced by what they compute"""
    y, p = holds(ck, 'ynunm', t_ynunm), holds(ck, 'nextq', t_nextq)
    w = ck.world(key='kernels')
    w.I.summaries.clear()
    if y:
        w.I.summaries['spherepy.pysphi.ynunm'] = py_ynunm
    if p:
        w.I.summaries['spherepy.pysphi.smallest_prime_factor'] = py_nextq
    return w


def a_facts():
    return [le(ONE, R), le(ZERO, M), le(M, N), le(2 * M + 1, C)]


def t_py_analysis(ck):
    w = pworld(ck)
    st = w.start(*a_facts())
    s = fn_site(w, 'pysphi.fc_to_sc')
    a = w.I.mkarr(st, [2 * R, C], data(), 'complex128', 'input')
    o = w.call(st, 'pysphi.fc_to_sc', a, iv(N), iv(M))
    ck.raises('fc_to_sc', o, {}, st, s)
    if not o.ok:
        return
    expect_array_shape(ck, 'fc_to_sc', w, o.st, o.val, [ncoef(N, M)], s)
    for lab, cs, mm in (('m = 0', [], ZERO), ('m > 0', [lt(ZERO, m)], m), ('m < 0', [lt(m, ZERO)], m)):
        s2 = o.st.fork(valid(n, mm, N, M), *cs)
        p_ = s2.F.simp(pos(n, mm, N))
        ck.eq('fc_to_sc modes, ' + lab, elem(w, s2, o.val, p_), s2.F.simp(analysis(n, mm)), s2, s,
              splits=[eq(n, ZERO)], hints=[(abs_(mm) - 1, N - abs_(mm))], budget=40)


def s_facts(rows=2 * R):
    return [le(ONE, R), le(ZERO, M), le(M, N), le(N, R), le(M + 1, C)]


def t_py_synthesis(ck):
    w = pworld(ck)
    st = w.start(*s_facts())
    s = fn_site(w, 'pysphi.sc_to_fc')
    rows, cols = 2 * R, 2 * C
    a = w.array(st, 'v', [ncoef(N, M)])
    o = w.call(st, 'pysphi.sc_to_fc', a, iv(N), iv(M), iv(rows), iv(cols))
    ck.raises('sc_to_fc', o, {}, st, s)
    if not o.ok:
        return
    c = lambda n_, m_: sarr('v', pos(n_, m_, N))
    for lab, cs in (('columns m >= 0', [le(j, M)]), ('columns m < 0', [le(cols - M, j)]),
                    ('other columns', [lt(M, j), lt(j, cols - M)])):
        s2 = o.st.fork(le(ZERO, i), lt(i, rows), le(ZERO, j), lt(j, cols), *cs)
        ck.eq('sc_to_fc ' + lab, elem(w, s2, o.val, i, j), synthesis(i, j, rows, cols, c), s2, s,
              splits=[eq(j, ZERO), eq(j, M), lt(R, i), eq(i, R), le(2 * R - i, N)], budget=40)


PY = [('ynunm', t_ynunm), ('smallest_prime_factor', t_nextq), ('fc_to_sc', t_py_analysis), ('sc_to_fc', t_py_synthesis)]
TASKS = {'C16': PY}
