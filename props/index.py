"""C05 index regions, C06 views, C25 validation before mutation, C10 monopoles."""
from .fix import *

G = 'ScalarCoefs.__getitem__'
S = 'ScalarCoefs.__setitem__'
VG = 'VectorCoefs.__getitem__'
VS = 'VectorCoefs.__setitem__'


def start(ck, vec=False):
    w = ck.world()
    st = w.start(*size_facts())
    if vec:
        st, c = vcoefs(w, st)
        v1, v2 = (lambda i, j: ite(eq(num(i), ZERO), ZERO, sarr('v1', pos(i, j, N)))), \
                 (lambda i, j: ite(eq(num(i), ZERO), ZERO, sarr('v2', pos(i, j, N))))
        return w, st, c, (v1, v2)
    st, c = scoefs(w, st)
    return w, st, c, (lambda i, j: sarr('c', pos(i, j, N)))


def sl(a=None, b=None, c=None):
    f = lambda x: NONE if x is None else iv(x)
    return SliceV(f(a), f(b), f(c))


# ---------------------------------------------------------------- C05
def t_get_nm(ck):
    w, st, c, f = start(ck)
    s = fn_site(w, G)
    o = w.getitem(st, c, tup(n, m))
    ck.raises('c[n,m]', o, {'AttributeError': c_not(valid(n, m, N, M))}, st, s)
    if o.ok:
        ck.eq('c[n,m] value', as_term(w, o.st, o.val), f(n, m), o.st, s)


def t_get_col(ck):
    w, st, c, f = start(ck)
    s = fn_site(w, G)
    o = w.getitem(st, c, tup(ALL, m))
    ck.raises('c[:,m]', o, {'AttributeError': lt(M, abs_(m))}, st, s)
    if o.ok:
        expect_array(ck, 'c[:,m]', w, o.st, o.val, [N - abs_(m) + 1],
                     lambda i: f(abs_(m) + i, m), s)


def t_get_row(ck):
    w, st, c, f = start(ck)
    s = fn_site(w, G)
    o = w.getitem(st, c, tup(n, ALL))
    ck.raises('c[n,:]', o, {'AttributeError': c_or([lt(n, ZERO), lt(N, n)])}, st, s)
    if o.ok:
        nn = minn(n, M)
        expect_array(ck, 'c[n,:]', w, o.st, o.val, [2 * nn + 1], lambda i: f(n, i - nn), s)


def t_trunc(ck):
    w, st, c, f = start(ck)
    s = fn_site(w, G)
    st1 = st.fork(lt(N, k))
    o = w.getitem(st1, c, tup(sl(0, k), ALL))
    ck.raises('c[0:k,:] k>nmax', o, {'AttributeError': TRUE}, st1, s)
    st2 = st.fork(le(ZERO, k), le(k, N))
    o = w.getitem(st2, c, tup(sl(0, k), ALL))
    ck.raises('c[0:k,:]', o, {'AttributeError': FALSE}, st2, s)
    if o.ok:
        expect_scoefs(ck, 'c[0:k,:]', w, o.st, o.val, k, minn(k, M), f, s)


def t_trunc_neg(ck):
    w, st, c, f = start(ck)
    s = fn_site(w, G)
    st3 = st.fork(lt(k, ZERO))
    o = w.getitem(st3, c, tup(sl(0, k), ALL))
    ck.raises('c[0:k,:] k<0', o, {'AttributeError': TRUE}, st3, s)


BAD_ARGS = [
    ('one index', lambda: tup(n)),
    ('three indices', lambda: tup(n, m, k)),
    ('partial column slice', lambda: tup(sl(a_, None), m)),
    ('partial column slice stop', lambda: tup(sl(None, b_), m)),
    ('partial column slice step', lambda: tup(sl(None, None, k), m)),
    ('partial row slice', lambda: tup(n, sl(a_, None))),
    ('partial row slice stop', lambda: tup(n, sl(None, b_))),
    ('partial row slice step', lambda: tup(n, sl(None, None, k))),
    ('float index', lambda: tup(NumV(sym('x', 'real'), 'float'), m)),
    ('float order', lambda: tup(n, NumV(sym('x', 'real'), 'float'))),
    ('string index', lambda: tup(StrV('a'), m)),
    ('None index', lambda: tup(NONE, NONE)),
]
BAD_GET = BAD_ARGS + [
    ('slice pair', lambda: tup(ALL, ALL)),
    ('slice pair from 1', lambda: tup(sl(1, k), ALL)),
    ('slice pair with step', lambda: tup(sl(0, k, b_), ALL)),
    ('slice pair open end', lambda: tup(sl(0, None), ALL)),
    ('truncated orders', lambda: tup(sl(0, k), sl(0, b_))),
    ('truncated orders stop', lambda: tup(sl(0, k), sl(None, b_))),
    ('truncated orders step', lambda: tup(sl(0, k), sl(None, None, b_))),
]
BAD_SET = BAD_ARGS + [
    ('slice pair', lambda: tup(ALL, ALL)),
    ('truncation', lambda: tup(sl(0, k), ALL)),
]


def t_bad_get(ck):
    w, st, c, f = start(ck)
    s = fn_site(w, G)
    for nm, a in BAD_GET:
        o = w.getitem(st, c, a())
        ck.raises('c[%s]' % nm, o, {'AttributeError': TRUE}, st, s)


def t_bad_set(ck):
    w, st, c, f = start(ck)
    s = fn_site(w, S)
    for nm, a in BAD_SET:
        o = w.setitem(st, c, a(), cnum())
        ck.raises('c[%s] = x' % nm, o, {'AttributeError': TRUE}, st, s)


def t_vget_nm(ck):
    w, st, c, f = start(ck, True)
    s = fn_site(w, VG)
    bad = c_or([c_not(valid(n, m, N, M)), eq(n, ZERO)])
    o = w.getitem(st, c, tup(n, m))
    ck.raises('vc[n,m]', o, {'AttributeError': bad}, st, s)
    if o.ok and expect_class(ck, 'vc[n,m] is a pair', w, o.st, o.val, 'tuple', s):
        for q in (0, 1):
            ck.eq('vc[n,m][%d]' % q, as_term(w, o.st, o.val.items[q]), f[q](n, m), o.st, s)


def t_vget_col(ck):
    w, st, c, f = start(ck, True)
    s = fn_site(w, VG)
    o = w.getitem(st, c, tup(ALL, m))
    ck.raises('vc[:,m]', o, {'AttributeError': lt(M, abs_(m))}, st, s)
    if o.ok and expect_class(ck, 'vc[:,m] is a pair', w, o.st, o.val, 'tuple', s):
        for q in (0, 1):
            expect_array(ck, 'vc[:,m][%d]' % q, w, o.st, o.val.items[q], [N - abs_(m) + 1],
                         lambda i: f[q](abs_(m) + i, m), s)


def t_vget_row(ck):
    w, st, c, f = start(ck, True)
    s = fn_site(w, VG)
    o = w.getitem(st, c, tup(n, ALL))
    ck.raises('vc[n,:]', o, {'AttributeError': c_or([le(n, ZERO), lt(N, n)])}, st, s)
    if o.ok and expect_class(ck, 'vc[n,:] is a pair', w, o.st, o.val, 'tuple', s):
        nn = minn(n, M)
        for q in (0, 1):
            expect_array(ck, 'vc[n,:][%d]' % q, w, o.st, o.val.items[q], [2 * nn + 1],
                         lambda i: f[q](n, i - nn), s)


def t_vtrunc(ck):
    w, st, c, f = start(ck, True)
    s = fn_site(w, VG)
    st1 = st.fork(lt(N, k))
    o = w.getitem(st1, c, tup(sl(0, k), ALL))
    ck.raises('vc[0:k,:] k>nmax', o, {'AttributeError': TRUE}, st1, s)
    st2 = st.fork(le(ZERO, k), le(k, N))
    o = w.getitem(st2, c, tup(sl(0, k), ALL))
    ck.raises('vc[0:k,:]', o, {'AttributeError': FALSE}, st2, s)
    if o.ok:
        expect_scoefs(ck, 'vc[0:k,:]', w, o.st, o.val, k, minn(k, M),
                      lambda i, j: (f[0](i, j), f[1](i, j)), s, vec=True)


def t_vtrunc_neg(ck):
    w, st, c, f = start(ck, True)
    s = fn_site(w, VG)
    st3 = st.fork(lt(k, ZERO))
    o = w.getitem(st3, c, tup(sl(0, k), ALL))
    ck.raises('vc[0:k,:] k<0', o, {'AttributeError': TRUE}, st3, s)


def t_vbad(ck):
    w, st, c, f = start(ck, True)
    s = fn_site(w, VG)
    for nm, a in BAD_GET:
        o = w.getitem(st, c, a())
        ck.raises('vc[%s]' % nm, o, {'AttributeError': TRUE}, st, s)
    s = fn_site(w, VS)
    pair = TupleV([cnum('x'), cnum('y')])
    for nm, a in BAD_SET + [('column', lambda: tup(ALL, m)), ('row', lambda: tup(n, ALL))]:
        o = w.setitem(st, c, a(), pair)
        ck.raises('vc[%s] = x, y' % nm, o, {'AttributeError': TRUE}, st, s)
    for nm, v in (('number', cnum()), ('string', StrV('ab')), ('None', NONE),
                  ('triple', TupleV([cnum(), cnum(), cnum()])), ('single', TupleV([cnum()]))):
        o = w.setitem(st, c, tup(n, m), v)
        ck.raises('vc[n,m] = %s' % nm, o, {'AttributeError': TRUE}, st, s)


# ---------------------------------------------------------------- item assignment
QN, QM = isym('qn'), isym('qm')
SPL = [eq(m, QM), eq(m, -QM), eq(m, ZERO), lt(ZERO, m), eq(QM, ZERO), lt(ZERO, QM), lt(abs_(m), abs_(QM))]
HNT = [(abs_(QM) - 1, N - abs_(QM)), (abs_(m) - 1, N - abs_(m)), (abs_(QM) - abs_(m) - 1, N - abs_(QM)),
       (abs_(m) - abs_(QM) - 1, N - abs_(m))]


def frame(ck, name, w, st, c, f, written, val, site, vec=False, stk=None):
    """after an assignment every mode reads val where written, else as before"""
    i, j = isym('qn'), isym('qm')
    s2 = st.fork(valid(i, j, N, M))
    if vec:
        s2.assume(le(ONE, i))
    if s2.F.contradictory():
        return
    got = mode(w, s2, c, i, j)
    if vec:
        for q in (0, 1):
            ck.eq('%s component %d' % (name, q + 1), got[q], ite(written(i, j), val(i, j)[q], f[q](i, j)), s2, site, splits=SPL, hints=HNT)
    else:
        ck.eq(name + ' all modes', got, ite(written(i, j), val(i, j), f(i, j)), s2, site, splits=SPL, hints=HNT,
              stk=stk)


def t_set_nm(ck):
    w, st, c, f = start(ck)
    s = fn_site(w, S)
    x = cnum()
    o = w.setitem(st, c, tup(n, m), x)
    ck.raises('c[n,m]=x', o, {'AttributeError': c_not(valid(n, m, N, M))}, st, s)
    if o.ok:
        frame(ck, 'c[n,m]=x', w, o.st, c, f, lambda i, j: c_and([eq(i, n), eq(j, m)]), lambda i, j: x.t, s)


def t_set_col(ck):
    w, st, c, f = start(ck)
    s = fn_site(w, S)
    st = st.fork(le(ZERO, k))
    z = w.array(st, 'z', [k])
    o = w.setitem(st, c, tup(ALL, m), z)
    ck.raises('c[:,m]=z', o, {'AttributeError': c_or([lt(M, abs_(m)), ne(k, N - abs_(m) + 1)])}, st, s)
    if o.ok:
        frame(ck, 'c[:,m]=z', w, o.st, c, f, lambda i, j: eq(j, m), lambda i, j: sarr('z', i - abs_(m)), s)


def row_splits(mm):
    return ([le(n, M), eq(mm, QM), eq(mm, -QM), eq(mm, ZERO), lt(ZERO, mm), eq(QM, ZERO), lt(ZERO, QM), lt(abs_(mm), abs_(QM)),
             lt(abs_(QM), abs_(mm))],
            [(abs_(QM) - 1, N - abs_(QM)), (abs_(mm) - 1, N - abs_(mm)), (abs_(QM) - abs_(mm) - 1, N - abs_(QM)),
             (abs_(mm) - abs_(QM) - 1, N - abs_(mm))])


def t_set_row(ck):
    w, st, c, f = start(ck)
    s = fn_site(w, S)
    st = st.fork(le(ZERO, k))
    z = w.array(st, 'z', [k])
    nn = minn(n, M)
    o = w.setitem(st, c, tup(n, ALL), z)
    ck.raises('c[n,:]=z', o, {'AttributeError': c_or([lt(n, ZERO), lt(N, n), ne(k, 2 * nn + 1)])}, st, s)
    if o.ok:
        frame(ck, 'c[n,:]=z', w, o.st, c, f, lambda i, j: eq(i, n), lambda i, j: sarr('z', j + nn), s,
              stk=(row_splits, [QM + nn], nn, [eq(QN, n), le(n, M), eq(QM, ZERO), lt(ZERO, QM)]))


def t_vset(ck):
    w, st, c, f = start(ck, True)
    s = fn_site(w, VS)
    x, y = cnum('x'), cnum('y')
    bad = c_or([c_not(valid(n, m, N, M)), eq(n, ZERO)])
    o = w.setitem(st, c, tup(n, m), TupleV([x, y]))
    ck.raises('vc[n,m]=x,y', o, {'AttributeError': bad}, st, s)
    if o.ok:
        frame(ck, 'vc[n,m]=x,y', w, o.st, c, f, lambda i, j: c_and([eq(i, n), eq(j, m)]),
              lambda i, j: (x.t, y.t), s, vec=True)


# ---------------------------------------------------------------- C25
def unchanged_on_raise(ck, name, w, st, out, c, f, site, vec=False):
    i, j = isym('qn'), isym('qm')
    for q, (s, e, where) in enumerate(out.recs):
        s2 = s.fork(valid(i, j, N, M))
        if vec:
            s2.assume(le(ONE, i))
        if s2.F.contradictory():
            continue
        got = mode(w, s2, c, i, j)
        if vec:
            for r in (0, 1):
                ck.eq('%s unchanged component %d when %s (%d)' % (name, r + 1, e.cls, q), got[r], f[r](i, j), s2, site, splits=SPL, hints=HNT)
        else:
            ck.eq('%s unchanged when %s (%d)' % (name, e.cls, q), got, f(i, j), s2, site)


def t_atomic(ck):
    w, st, c, f = start(ck)
    s = fn_site(w, S)
    st = st.fork(le(ZERO, k))
    z = w.array(st, 'z', [k])
    for nm, a, v in (('c[n,m]=x', tup(n, m), cnum()), ('c[:,m]=z', tup(ALL, m), z), ('c[n,:]=z', tup(n, ALL), z)):
        unchanged_on_raise(ck, nm, w, st, w.setitem(st, c, a, v), c, f, s)


def t_vatomic(ck):
    w, st, c, f = start(ck, True)
    s = fn_site(w, VS)
    o = w.setitem(st, c, tup(n, m), TupleV([cnum('x'), cnum('y')]))
    unchanged_on_raise(ck, 'vc[n,m]=x,y', w, st, o, c, f, s, vec=True)


def t_watomic(ck):
    w, st, c, f = start(ck)
    s = fn_site(w, 'ScalarCoefs.window')
    st = st.fork(le(ZERO, k))
    o = w.meth(st, c, 'window', w.array(st, 'win', [k]))
    ck.raises('window', o, {'ValueError': ne(k, N + 1)}, st, s)
    unchanged_on_raise(ck, 'window', w, st, o, c, f, s)


TASKS = {
    'C05': [('getitem n,m', t_get_nm), ('getitem :,m', t_get_col), ('getitem n,:', t_get_row),
            ('truncation', t_trunc), ('truncation negative', t_trunc_neg, 30),
            ('rejected reads', t_bad_get), ('rejected writes', t_bad_set),
            ('vector n,m', t_vget_nm), ('vector :,m', t_vget_col), ('vector n,:', t_vget_row),
            ('vector truncation', t_vtrunc), ('vector truncation negative', t_vtrunc_neg, 30),
            ('vector rejected', t_vbad)],
    'C06': [('set n,m', t_set_nm), ('set :,m', t_set_col), ('set n,:', t_set_row), ('vector set', t_vset),
            ('rejected writes', t_bad_set)],
    'C25': [('scalar assignment', t_atomic), ('vector assignment', t_vatomic), ('window', t_watomic)],
}
