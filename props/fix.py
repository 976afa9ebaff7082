"""Symbolic objects and specification formulas shared by the properties."""
from sa.harness import *
from sa import terms as T

N, M, n, m, k, R, C, a_, b_ = map(isym, ['N', 'M', 'n', 'm', 'k', 'R', 'C', 'a', 'b'])
N2, M2 = isym('N2'), isym('M2')
TWO = num(2)


def ncoef(N, M):
    """number of modes with 0 <= n <= N, |m| <= min(n, M)"""
    return N + 1 + M * (2 * (N + 1) - M - 1)


def pos(n, m, N):
    """documented storage position of mode (n, m): m = 0 first, then for each
    order k = 1.. the block of m = -k followed by the block of m = +k"""
    n, m = num(n), num(m)
    k = abs_(m)
    base = (N + 1) * (2 * k - 1) - k * (k - 1)
    return ite(eq(m, ZERO), n, base + ite(lt(ZERO, m), N - k + 1, ZERO) + n - k)


def valid(n, m, N, M):
    n, m = num(n), num(m)
    return c_and([le(ZERO, n), le(n, N), le(abs_(m), n), le(abs_(m), M)])


def minn(x, y):
    return ite(le(x, y), num(x), num(y))


def sarr(name, *ix, **kw):
    sort = kw.get('sort', 'complex')
    return sel(mk_atom('sym', (name, 'arr', sort), sort), [num(i) for i in ix], sort)


def csym(name, sort='complex'):
    return sym(name, sort)


def cnum(name='x', sort='complex'):
    ty = {'complex': 'complex', 'real': 'float', 'int': 'int'}[sort]
    return NumV(sym(name, sort), ty)


def scoefs(w, st, name='c', N_=N, M_=M, dtype='complex128'):
    st, c = w.must(w.call(st, 'ScalarCoefs', w.array(st, name, [ncoef(N_, M_)], dtype), iv(N_), iv(M_)))
    return st, c


def vcoefs(w, st, n1='v1', n2='v2', N_=N, M_=M):
    L = ncoef(N_, M_)
    st, c = w.must(w.call(st, 'VectorCoefs', w.array(st, n1, [L]), w.array(st, n2, [L]), iv(N_), iv(M_)))
    return st, c


def size_facts(N_=N, M_=M):
    return [le(ZERO, M_), le(M_, N_)]


def patt_facts(R_=R, C_=C):
    return [le(TWO, R_), le(TWO, C_), eq(mod_(C_, TWO), ZERO)]


def spatt(w, st, name='p', R_=R, C_=C):
    """pattern whose sphere data are the symbolic array name[R, C]"""
    return w.must(w.call(st, 'ScalarPatternUniform', w.array(st, name, [R_, C_])))


def dpatt(w, st, name='p', R_=R, C_=C):
    """pattern built from already doubled symbolic data name[2R-2, C]"""
    return w.must(w.call(st, 'ScalarPatternUniform', w.array(st, name, [2 * R_ - 2, C_]), doublesphere=TRUE_V))


def tdpatt(w, st, n1='tp', n2='pp', R_=R, C_=C):
    return w.must(w.call(st, 'TransversePatternUniform', w.array(st, n1, [2 * R_ - 2, C_]),
                         w.array(st, n2, [2 * R_ - 2, C_]), doublesphere=TRUE_V))


TRUE_V = BoolV(TRUE)
FALSE_V = BoolV(FALSE)


def tup(*xs):
    return TupleV([iv(x) if isinstance(x, (int, Num)) else x for x in xs])


def as_term(w, st, v):
    """numeric term of an abstract value"""
    while isinstance(v, PhiV):
        a, b = as_term(w, st, v.a), as_term(w, st, v.b)
        return ite(v.c, a, b)
    if isinstance(v, NumV):
        return v.t
    if isinstance(v, BoolV):
        return ite(v.c, ONE, ZERO)
    raise Skip('not a number: %s' % clip(v, 100))


def mode(w, st, c, n_, m_):
    """value of c[n, m] as seen through the public accessor (facts must make
    the index valid); VectorCoefs give a pair"""
    o = w.getitem(st, c, tup(n_, m_))
    if not o.ok:
        raise Skip('mode not readable')
    v = o.val
    if isinstance(v, TupleV):
        return [as_term(w, o.st, x) for x in v.items]
    return as_term(w, o.st, v)


def prop(w, st, o, name):
    out = w.run(st, lambda s: w.I.getattr(s, o, name))
    if not out.ok:
        raise Skip('attribute %s not readable' % name)
    return out.val


def isinst(w, v, clsname):
    """True/False when the class of the value is known"""
    if isinstance(v, Ref):
        return None
    return None


def cls_of(w, st, v):
    if isinstance(v, Ref):
        r = st.get(v.id)
        c = getattr(r, 'cls', None)
        if c is not None:
            return c.name
        return {'ListRec': 'list'}.get(type(r).__name__, getattr(r, 'kind', type(r).__name__))
    if isinstance(v, ArrV):
        return 'ndarray'
    if isinstance(v, TupleV):
        return 'tuple'
    if isinstance(v, NumV):
        return v.ty or 'number'
    if isinstance(v, BoolV):
        return 'bool'
    if isinstance(v, StrV):
        return 'str'
    if v is NONE:
        return 'None'
    return type(v).__name__


def expect_class(ck, name, w, st, v, cls, site=None):
    """the result is an object of the stated class on every path"""
    ok = True
    if isinstance(v, PhiV):
        for g, x in ((v.c, v.a), (c_not(v.c), v.b)):
            F = ck.facts(st).add(g)
            if F.contradictory():
                continue
            s2 = st.fork(g)
            ok = expect_class(ck, name, w, s2, x, cls, site) and ok
        return ok
    c = cls_of(w, st, v)
    if isinstance(v, UnkV) or (isinstance(v, NumV) and v.t.opaque):
        ck.undecided(name, 'unknown value', site)
        return False
    want = cls if isinstance(cls, tuple) else (cls,)
    if c in want:
        ck.proved(name, site)
        return True
    F = ck.facts(st)
    if F.contradictory():
        return True
    s, info = MD.witness(TRUE, F)
    if s == 'sat':
        ck.violated(name, 'result is %s, not %s' % (c, cls), site, separation=jsonable(info))
    else:
        ck.undecided(name, 'result is %s, not %s (%s)' % (c, cls, s), site)
    return False


def shape_of(w, st, v):
    if not isinstance(v, ArrV):
        raise Skip('not an array: %s' % clip(v, 80))
    return list(v.shape)


def elem(w, st, v, *ix):
    return w.I.arr_elem(st, v, [num(i) for i in ix])


def expect_array(ck, name, w, st, v, shape, f, site=None, idx=None, facts=(), **kw):
    """v is an array of the shape whose elements equal f(*idx)"""
    if isinstance(v, PhiV):
        for i, (g, x) in enumerate(((v.c, v.a), (c_not(v.c), v.b))):
            s2 = st.fork(g)
            if not s2.F.contradictory():
                expect_array(ck, name, w, s2, x, shape, f, site, idx, facts, **kw)
        return
    if not isinstance(v, ArrV):
        expect_class(ck, name + ' is an array', w, st, v, 'ndarray', site)
        return
    if len(v.shape) != len(shape):
        ck.violated(name + ' rank', 'rank %d, not %d' % (len(v.shape), len(shape)), site)
        return
    for i, (x, y) in enumerate(zip(v.shape, shape)):
        ck.eq('%s shape[%d]' % (name, i), x, y, st, site)
    idx = idx or [isym('i%d' % j) for j in range(len(shape))]
    s2 = st.fork(*([le(ZERO, i) for i in idx] + [lt(i, num(x)) for i, x in zip(idx, shape)] + list(facts)))
    if s2.F.contradictory():
        ck.proved(name + ' elements', site, 'empty')
        return
    ck.eq(name + ' elements', elem(w, s2, v, *idx), f(*idx), s2, site, **kw)


def expect_scoefs(ck, name, w, st, v, N_, M_, f, site=None, facts=(), vec=False, lemmas=()):
    """v is a coefficient object of the given size with v[n, m] = f(n, m)"""
    if isinstance(v, PhiV):
        for g, x in ((v.c, v.a), (c_not(v.c), v.b)):
            s2 = st.fork(g)
            if not s2.F.contradictory():
                expect_scoefs(ck, name, w, s2, x, N_, M_, f, site, facts, vec, lemmas)
        return
    if not expect_class(ck, name + ' class', w, st, v, 'VectorCoefs' if vec else 'ScalarCoefs', site):
        return
    ck.eq(name + ' nmax', as_term(w, st, prop(w, st, v, 'nmax')), N_, st, site)
    ck.eq(name + ' mmax', as_term(w, st, prop(w, st, v, 'mmax')), M_, st, site)
    i, j = isym('qn'), isym('qm')
    s2 = st.fork(valid(i, j, N_, M_), *facts)
    if vec:
        s2.assume(le(ONE, i))
    if s2.F.contradictory():
        return
    got = mode(w, s2, v, i, j)
    want = f(i, j)
    if vec:
        for q in (0, 1):
            ck.eq('%s component %d' % (name, q + 1), got[q], want[q], s2, site, lemmas=lemmas)
    else:
        ck.eq(name + ' values', got, want, s2, site, lemmas=lemmas)


class NumErr(Exception):
    pass
