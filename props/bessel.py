"""C21 spherical Bessel functions of every argument and number."""
from .fix import *
from sa import terms as T

K, j = isym('K'), isym('j')
X = cnum('x', 'real').t
XV = cnum('x', 'real')


def fnterm(name, x):
    return T.from_atom(T.mk_atom(name, (x,), 'real'))


SIN, COS = fnterm('sin', X), fnterm('cos', X)
IX = T.inverse(X)
Y0 = -COS * IX
Y1 = -COS * IX * IX - SIN * IX
J0 = SIN * IX
J1 = SIN * IX * IX - COS * IX
FACTS = [le(ONE, K), ne(X, ZERO)]


def call(ck, f, st=None, w=None, facts=(), x=XV):
    w = w or ck.world()
    st = st or w.start(*(FACTS + list(facts)))
    o = w.call(st, 'sbessel.' + f, x, iv(K))
    return w, st, o


def vector(ck, w, st, v, f, s):
    """[(facts, array)]; a result that is a number for some sizes is reported"""
    if isinstance(v, PhiV):
        out = []
        for c, x in ((v.c, v.a), (c_not(v.c), v.b)):
            s2 = st.fork(c)
            if not s2.F.contradictory():
                out.extend(vector(ck, w, s2, x, f, s))
        return out
    if isinstance(v, (NumV, NoneT, BoolV)):
        ck.never(f + ' returns no vector', TRUE, st, s, 'the result is %s' % (v,))
        return []
    return [(st, v)]


def ends(ck, w, st, o, f, s, zero):
    """a number for x != 0, a vector of K entries"""
    for s2, e, where in o.recs:
        if 'ZeroDivisionError' in str(e) and zero:
            continue            # a zero of a denominator of the continued fraction
        ck.never('%s raises %s' % (f, e), c_and(o.conds(s2)), s2, s, where)
    if not o.ok:
        ck.violated(f, 'never returns', s)
        return False
    for s2, v in vector(ck, w, o.st, o.val, f, s):
        sh = shape_of(w, s2, v)
        if len(sh) != 1:
            ck.violated(f + ' returns a vector', 'number of dimensions', s, got=len(sh), expected=1)
            return False
        ck.eq(f + ', number of entries', sh[0], K, s2, s)
    return True


def entry(ck, w, st, v, k):
    """entry k of the vector"""
    if isinstance(v, PhiV):
        known = st.F.decide(v.c)
        if known is None:
            return ite(v.c, entry(ck, w, st, v.a, k), entry(ck, w, st, v.b, k))
        return entry(ck, w, st, v.a if known else v.b, k)
    return elem(w, st, v, k)


def t_y(ck):
    f = 'sbessely'
    w, st, o = call(ck, f)
    s = fn_site(w, 'sbessel.' + f)
    if not ends(ck, w, st, o, f, s, False):
        return
    at = lambda s2, k: entry(ck, w, s2, o.val, k)
    ck.eq('y_0(x) = -cos(x) / x', at(o.st, ZERO), Y0, o.st, s)
    s2 = o.st.fork(le(TWO, K))
    ck.eq('y_1(x) = -cos(x) / x^2 - sin(x) / x', at(s2, ONE), Y1, s2, s)
    s2 = o.st.fork(le(TWO, j), lt(j, K))
    ck.eq('y_j = (2j - 1) / x y_{j-1} - y_{j-2}', at(s2, j), (2 * j - 1) * IX * at(s2, j - 1) - at(s2, j - 2), s2, s, splits=[eq(j, TWO), eq(j, 3)])


def t_j(ck):
    f = 'sbesselj'
    w, st, o = call(ck, f)
    s = fn_site(w, 'sbessel.' + f)
    if not ends(ck, w, st, o, f, s, True):
        return
    at = lambda s2, k: entry(ck, w, s2, o.val, k)
    ck.eq('j_0(x) = sin(x) / x', at(o.st, ZERO), J0, o.st, s)
    direct = lt(T.abs_(J0), T.abs_(J1))
    s2 = o.st.fork(le(TWO, K), direct)
    ck.eq('j_1(x) = sin(x) / x^2 - cos(x) / x where that is larger than j_0', at(s2, ONE), J1, s2, s)


def t_jr(ck):
    f = 'sbesselj'
    w, st, o = call(ck, f)
    s = fn_site(w, 'sbessel.' + f)
    if not o.ok:
        return
    at = lambda s2, k: entry(ck, w, s2, o.val, k)
    for lab, cs in (('', [le(TWO, j)]), (', j = 1', [eq(j, ONE), le(T.abs_(J1), T.abs_(J0))])):
        s2 = o.st.fork(lt(j, K - 1), *cs)
        jj = ONE if lab else j
        ck.eq('j_{j-1} + j_{j+1} = (2j + 1) / x j_j' + lab, at(s2, jj - 1) + at(s2, jj + 1), (2 * jj + 1) * IX * at(s2, jj), s2, s,
              splits=[eq(K, jj + 2), eq(K, jj + 3)] + ([] if lab else [eq(j, TWO), eq(j, 3)]), budget=40)


def t_h(ck):
    w = ck.world()
    st = w.start(*FACTS)
    oj = w.call(st, 'sbessel.sbesselj', XV, iv(K))
    if not oj.ok:
        return
    oy = w.call(oj.st, 'sbessel.sbessely', XV, iv(K))
    if not oy.ok:
        return
    for f, sg in (('sbesselh1', T.I), ('sbesselh2', -T.I)):
        s = fn_site(w, 'sbessel.' + f)
        o = w.call(oy.st, 'sbessel.' + f, XV, iv(K))
        if not ends(ck, w, st, o, f, s, True):
            continue
        s2 = o.st.fork(le(ZERO, j), lt(j, K))
        ck.eq('%s = j %s i y' % (f, '+' if f[-1] == '1' else '-'), entry(ck, w, s2, o.val, j),
              entry(ck, w, s2, oj.val, j) + sg * entry(ck, w, s2, oy.val, j), s2, s)


TASKS = {'C21': [('sbessely', t_y), ('sbesselj', t_j), ('sbesselj recurrence', t_jr), ('Hankel functions', t_h)]}
