"""C07 arithmetic, C08 operand validation, C09 norms and magnitudes, C10
monopoles, C13 factories, C26 windows."""
from .fix import *

OPS = [('Add', '+', lambda a, b: a + b), ('Sub', '-', lambda a, b: a - b),
       ('Mult', '*', lambda a, b: a * b), ('Div', '/', lambda a, b: a / b)]
DUNDER = {'Add': 'add', 'Sub': 'sub', 'Mult': 'mul', 'Div': 'truediv'}


class Kind(object):
    """the four combinable classes"""
    def __init__(self, name):
        self.name = name
        self.vec = name in ('VectorCoefs', 'TransversePatternUniform')
        self.coef = name.endswith('Coefs')

    def sizes(self, second=False):
        if self.coef:
            return (N2, M2) if second else (N, M)
        return (isym('R2'), isym('C2')) if second else (R, C)

    def facts(self, second=False):
        a, b = self.sizes(second)
        return size_facts(a, b) if self.coef else [le(TWO, a), le(ONE, b)]

    def make(self, w, st, tag, second=False):
        a, b = self.sizes(second)
        if self.name == 'ScalarCoefs':
            return scoefs(w, st, tag, a, b)
        if self.name == 'VectorCoefs':
            return vcoefs(w, st, tag + '1', tag + '2', a, b)
        if self.name == 'ScalarPatternUniform':
            return dpatt(w, st, tag, a, b)
        return tdpatt(w, st, tag + '1', tag + '2', a, b)

    def comps(self, w, st, o, i, j):
        """component values seen through the public interface at index i, j"""
        if self.coef:
            v = mode(w, st, o, i, j)
            return v if self.vec else [v]
        d = prop(w, st, o, 'doublesphere')
        ds = d.items if isinstance(d, TupleV) else [d]
        return [elem(w, st, x, i, j) for x in ds]

    def dims(self, w, st, o):
        ns = ('nmax', 'mmax') if self.coef else ('nrows', 'ncols')
        return [as_term(w, st, prop(w, st, o, x)) for x in ns]

    def region(self, i, j):
        if self.coef:
            r = [valid(i, j, N, M)]
            if self.vec:
                r.append(le(ONE, i))
            return r
        return [le(ZERO, i), lt(i, 2 * R - 2), le(ZERO, j), lt(j, C)]


KINDS = [Kind(x) for x in ('ScalarCoefs', 'VectorCoefs', 'ScalarPatternUniform', 'TransversePatternUniform')]


def numbers_():
    return [('complex', cnum('x', 'complex')), ('float', cnum('y', 'real')), ('int', iv(k))]


def check_result(ck, lab, w, o, K, f, site, a0, st0):
    """o is a K object of the operand's size whose components are f(component)"""
    if not o.ok:
        F = ck.facts(o.recs[0][0]) if o.recs else None
        ck.violated(lab + ' completes', 'always raises %s' % [str(e) for _, e, _ in o.recs][:2], site) \
            if F is not None and MD.witness(TRUE, F)[0] == 'sat' else ck.undecided(lab + ' completes', 'no result')
        return
    if not expect_class(ck, lab + ' class', w, o.st, o.val, K.name, site):
        return
    d = K.dims(w, o.st, o.val)
    for nm, got, want in zip(('first size', 'second size'), d, K.sizes()):
        ck.eq('%s %s' % (lab, nm), got, want, o.st, site)
    i, j = isym('qn'), isym('qm')
    s2 = o.st.fork(*K.region(i, j))
    got = K.comps(w, s2, o.val, i, j)
    sa = st0.fork(*K.region(i, j))
    src = K.comps(w, sa, a0, i, j)
    for q, (g, s) in enumerate(zip(got, src)):
        ck.eq('%s component %d' % (lab, q), g, f(q, s, i, j), s2, site)


def t_arith(K, op, sgn, fn):
    def run(ck):
        w = ck.world()
        st = w.start(*K.facts())
        st, a = K.make(w, st, 'a')
        st, b = K.make(w, st, 'b')
        site = fn_site(w, '%s.__%s__' % (K.name, DUNDER[op]))
        i, j = isym('qn'), isym('qm')
        sb = st.fork(*K.region(i, j))
        bv = K.comps(w, sb, b, i, j)
        guard = []
        st1 = st
        o = w.binop(st1, op, a, b)
        ck.raises('a%sb' % sgn, o, {}, st1, site)
        check_result(ck, 'a%sb' % sgn, w, o, K, lambda q, s, i, j: fn(s, bv[q]), site, a, st)
        for nm, x in numbers_():
            st2 = st.fork(ne(x.t, ZERO)) if op == 'Div' else st
            o = w.binop(st2, op, a, x)
            ck.raises('a%s%s' % (sgn, nm), o, {}, st2, site)
            check_result(ck, 'a%s%s' % (sgn, nm), w, o, K, lambda q, s, i, j: fn(s, x.t), site, a, st)
            if K.name == 'VectorCoefs' and op == 'Div':
                continue
            o = w.binop(st, op, x, a)
            ck.raises('%s%sa' % (nm, sgn), o, {}, st, site)
            check_result(ck, '%s%sa' % (nm, sgn), w, o, K, lambda q, s, i, j: fn(x.t, s), site, a, st)
    return ('%s %s' % (K.name, sgn), run)


def t_valid(K):
    def run(ck):
        w = ck.world()
        st = w.start(*(K.facts() + K.facts(True)))
        st, a = K.make(w, st, 'a')
        st, b = K.make(w, st, 'b', True)
        (s1, s2), (r1, r2) = K.sizes(), K.sizes(True)
        differ = c_or([ne(s1, r1), ne(s2, r2)])
        others = [('string', StrV('x')), ('None', NONE), ('tuple', tup(1, 2))]
        for K2 in KINDS:
            if K2.name != K.name:
                st, o2 = K2.make(w, st.fork(*K2.facts()), 'o' + K2.name)
                others.append((K2.name, o2))
        for op, sgn, fn in OPS:
            site = fn_site(w, '%s.__%s__' % (K.name, DUNDER[op]))
            o = w.binop(st, op, a, b)
            ck.raises('a%sb sizes' % sgn, o, {'ValueError': differ}, st, site)
            for nm, x in others:
                o = w.binop(st, op, a, x)
                ck.raises('a%s%s' % (sgn, nm), o, {'TypeError': TRUE}, st, site)
                if not isinstance(x, Ref):
                    if op == 'Mult' and nm == 'tuple':
                        continue
                    o = w.binop(st, op, x, a)
                    ck.raises('%s%sa' % (nm, sgn), o, {'TypeError': TRUE}, st, site)
        site = fn_site(w, '%s.__truediv__' % K.name)
        for nm, x in numbers_():
            o = w.binop(st, 'Div', a, x)
            ck.raises('a/%s zero' % nm, o, {'ZeroDivisionError': eq(x.t, ZERO)}, st, site)
        for nm, x in (('0', iv(0)), ('0.0', NumV(ZERO, 'float')), ('0j', NumV(ZERO, 'complex'))):
            o = w.binop(st, 'Div', a, x)
            ck.raises('a/%s' % nm, o, {'ZeroDivisionError': TRUE}, st, site)
    return ('operands of %s' % K.name, run)


# ---------------------------------------------------------------- C09
def num_result(ck, lab, w, o, want, site):
    ck.raises(lab, o, {}, o.st if o.ok else o.recs[0][0], site)
    if o.ok:
        try:
            ck.eq(lab, as_term(w, o.st, o.val), want, o.st, site)
        except Skip:
            expect_class(ck, lab + ' is a number', w, o.st, o.val, ('float', 'complex'), site)


def refnum(w, st, fn, *arrs):
    o = w.ref(st, 'values', fn, *arrs)
    return as_term(w, o.st, o.val)


def t_norm_coef(ck):
    w = ck.world()
    st = w.start(*size_facts())
    L = ncoef(N, M)
    v, v1, v2 = [w.array(st, x, [L]) for x in ('c', 'u', 'v')]
    st, c = w.must(w.call(st, 'ScalarCoefs', v, iv(N), iv(M)))
    st, vc = w.must(w.call(st, 'VectorCoefs', v1, v2, iv(N), iv(M)))
    v1, v2 = [w.I.mkarr(st, [L], (lambda x: lambda ix: ite(eq(ix[0], ZERO), ZERO, sarr(x, ix[0])))(x), 'complex128', 'input')
              for x in ('u', 'v')]          # the coefficients hold no monopole
    for nm, sc, vv in (('L2_coef', 'l2', 'l2pair'), ('LInf_coef', 'linf', 'linfpair')):
        s = fn_site(w, nm)
        num_result(ck, nm + ' scalar', w, w.call(st, nm, c), refnum(w, st, sc, v), s)
        num_result(ck, nm + ' vector', w, w.call(st, nm, vc), refnum(w, st, vv, v1, v2), s)
        for lab, x in bad_types(w, st):
            if lab != 'pattern':
                continue
        for lab, x in (('number', cnum()), ('None', NONE), ('array', v), ('string', StrV('a'))):
            ck.raises('%s of %s' % (nm, lab), w.call(st, nm, x), {'TypeError': TRUE}, st, s)


def bad_types(w, st):
    return []


def t_norm_patt(ck):
    w = ck.world()
    st = w.start(*patt_facts())
    v, v1, v2 = [w.array(st, x, [2 * R - 2, C]) for x in ('p', 'u', 'v')]
    st, p = w.must(w.call(st, 'ScalarPatternUniform', v, doublesphere=TRUE_V))
    st, q = w.must(w.call(st, 'TransversePatternUniform', v1, v2, doublesphere=TRUE_V))
    for nm, sc, vv in (('L2_patt', 'l2', 'l2pair'), ('LInf_patt', 'linf', 'linfpair')):
        s = fn_site(w, nm)
        num_result(ck, nm + ' scalar', w, w.call(st, nm, p), refnum(w, st, sc, v), s)
        num_result(ck, nm + ' vector', w, w.call(st, nm, q), refnum(w, st, vv, v1, v2), s)
        for lab, x in (('number', cnum()), ('None', NONE), ('array', v), ('string', StrV('a'))):
            ck.raises('%s of %s' % (nm, lab), w.call(st, nm, x), {'TypeError': TRUE}, st, s)


def t_power(ck):
    w = ck.world()
    st = w.start(*size_facts())
    v = w.array(st, 'c', [ncoef(N, M)])
    st, c = w.must(w.call(st, 'ScalarCoefs', v, iv(N), iv(M)))
    num_result(ck, 'power', w, w.meth(st, c, 'power'), refnum(w, st, 'power', v), fn_site(w, 'ScalarCoefs.power'))
    o = w.meth(st, c, 'angular_power_spectrum')
    s = fn_site(w, 'ScalarCoefs.angular_power_spectrum')
    ck.raises('angular power', o, {}, st, s)
    if o.ok:
        t = T.fresh_atom('m')

        def want(i):
            nn = minn(i, M)
            e = abs_(sarr('c', pos(i, from_atom(t) - nn, N)))
            return T.mk_sum(t, ZERO, 2 * nn, e * e)
        expect_array(ck, 'angular power', w, o.st, o.val, [N + 1], want, s)


def t_relative(ck):
    w = ck.world()
    st = w.start(*size_facts())
    L = ncoef(N, M)
    v, u = w.array(st, 'c', [L]), w.array(st, 'd', [L])
    st, c = w.must(w.call(st, 'ScalarCoefs', v, iv(N), iv(M)))
    st, d = w.must(w.call(st, 'ScalarCoefs', u, iv(N), iv(M)))
    num_result(ck, 'compare_relative', w, w.call(st, 'compare_relative', c, d), refnum(w, st, 'relative', v, u),
               fn_site(w, 'compare_relative'))


def sq(x):
    a = abs_(x)
    return a * a


def t_mag(ck):
    w = ck.world()
    st = w.start(*(size_facts() + patt_facts()))
    st, c = scoefs(w, st)
    st, vc = vcoefs(w, st)
    st, p = dpatt(w, st)
    st, q = tdpatt(w, st)
    fc = lambda i, j: sarr('c', pos(i, j, N))
    fv = lambda i, j: sq(sarr('v1', pos(i, j, N))) + sq(sarr('v2', pos(i, j, N)))
    fp = lambda i, j: sarr('p', i, j)
    fq = lambda i, j: sq(sarr('tp', i, j)) + sq(sarr('pp', i, j))
    zero0 = lambda f: (lambda i, j: ite(eq(num(i), ZERO), ZERO, f(i, j)))
    table = {
        'abs': [('ScalarCoefs', c, lambda i, j: abs_(fc(i, j))), ('ScalarPatternUniform', p, lambda i, j: abs_(fp(i, j)))],
        'mag': [('ScalarCoefs', c, lambda i, j: abs_(fc(i, j))), ('VectorCoefs', vc, zero0(lambda i, j: T.sqrt_(fv(i, j)))),
                ('ScalarPatternUniform', p, lambda i, j: abs_(fp(i, j))),
                ('TransversePatternUniform', q, lambda i, j: T.sqrt_(fq(i, j)))],
        'mag2': [('ScalarCoefs', c, lambda i, j: sq(fc(i, j))), ('VectorCoefs', vc, zero0(fv)),
                 ('ScalarPatternUniform', p, lambda i, j: sq(fp(i, j))), ('TransversePatternUniform', q, fq)]}
    for nm in ('abs', 'mag', 'mag2'):
        s = fn_site(w, nm)
        for cl, o_, f in table[nm]:
            o = w.call(st, nm, o_)
            lab = '%s(%s)' % (nm, cl)
            ck.raises(lab, o, {}, st, s)
            if not o.ok:
                continue
            if cl.endswith('Coefs'):
                expect_scoefs(ck, lab, w, o.st, o.val, N, M, f, s)
            else:
                expect_array(ck, lab, w, o.st, o.val, [R, C], f, s)
        for lab, x in (('number', cnum()), ('None', NONE), ('string', StrV('a'))):
            ck.raises('%s of %s' % (nm, lab), w.call(st, nm, x), {'TypeError': TRUE}, st, s)
    s = fn_site(w, 'array')
    o = w.call(st, 'array', p)
    ck.raises('array(p)', o, {}, st, s)
    if o.ok:
        expect_array(ck, 'array(p)', w, o.st, o.val, [R, C], fp, s)
    o = w.call(st, 'array', q)
    if o.ok and expect_class(ck, 'array(q)', w, o.st, o.val, 'tuple', s):
        for i, nm in enumerate(('tp', 'pp')):
            expect_array(ck, 'array(q)[%d]' % i, w, o.st, o.val.items[i], [R, C], lambda a, b: sarr(nm, a, b), s)
    for lab, x in (('number', cnum()), ('None', NONE), ('coefficients', c)):
        ck.raises('array of %s' % lab, w.call(st, 'array', x), {'TypeError': TRUE}, st, s)


# ---------------------------------------------------------------- C10
def mono_zero(ck, lab, w, st, o, site):
    """the (0, 0) entry of both components is zero"""
    for q in (1, 2):
        sc = prop(w, st, o, 'scoef%d' % q)
        ck.eq('%s component %d' % (lab, q), mode(w, st, sc, 0, 0), ZERO, st, site,
              splits=[eq(m, ZERO), lt(ZERO, m)], hints=[(abs_(m) - 1, N - abs_(m)), (abs_(m) - 1, M - abs_(m))])


def t_mono(ck):
    w = ck.world()
    st = w.start(*(size_facts() + patt_facts()))
    s = fn_site(w, 'VectorCoefs.__init__')
    st, a = vcoefs(w, st, 'a1', 'a2')
    mono_zero(ck, 'constructor', w, st, a, s)
    st, b = vcoefs(w, st, 'b1', 'b2')
    vecv = w.get(st, 'vector')
    for nm in ('zeros_coefs', 'ones_coefs', 'random_coefs'):
        o = w.call(st, nm, iv(N), iv(M), coef_type=vecv)
        if o.ok:
            mono_zero(ck, nm, w, o.st, o.val, fn_site(w, nm))
    for op, sgn, _ in OPS:
        site = fn_site(w, 'VectorCoefs.__%s__' % DUNDER[op])
        outs = [('a%sb' % sgn, w.binop(st, op, a, b))]
        for nm, x in numbers_():
            s2 = st.fork(ne(x.t, ZERO)) if op == 'Div' else st
            outs.append(('a%s%s' % (sgn, nm), w.binop(s2, op, a, x)))
            outs.append(('%s%sa' % (nm, sgn), w.binop(st, op, x, a)))
        for lab, o in outs:
            if o.ok:
                mono_zero(ck, lab, w, o.st, o.val, site)
            else:
                ck.undecided(lab, 'no result', site)
    o = w.meth(st, a, 'copy')
    if o.ok:
        mono_zero(ck, 'copy', w, o.st, o.val, fn_site(w, 'VectorCoefs.copy'))
    s2 = st.fork(le(ZERO, k), le(k, N))
    o = w.getitem(s2, a, TupleV([SliceV(iv(0), iv(k), NONE), ALL]))
    if o.ok:
        mono_zero(ck, 'truncation', w, o.st, o.val, fn_site(w, 'VectorCoefs.__getitem__'))
    x, y = cnum('x'), cnum('y')
    o = w.setitem(st, a, tup(n, m), TupleV([x, y]))
    if o.ok:
        mono_zero(ck, 'assignment', w, o.st, a, fn_site(w, 'VectorCoefs.__setitem__'))


# ---------------------------------------------------------------- C13
def t_fac_coefs(ck):
    w = ck.world()
    st = w.start()
    ok = c_and(size_facts())
    st_ok = w.start(*size_facts())
    scal, vect = w.get(st, 'scalar'), w.get(st, 'vector')
    for nm, val in (('zeros_coefs', ZERO), ('ones_coefs', ONE)):
        s = fn_site(w, nm)
        for lab, kw in (('default', {}), ('scalar', dict(coef_type=scal))):
            o = w.call(st_ok, nm, iv(N), iv(M), **kw)
            ck.raises('%s %s' % (nm, lab), o, {}, st_ok, s)
            if o.ok:
                expect_scoefs(ck, '%s %s' % (nm, lab), w, o.st, o.val, N, M, lambda i, j: val, s)
        o = w.call(st_ok, nm, iv(N), iv(M), coef_type=vect)
        ck.raises('%s vector' % nm, o, {}, st_ok, s)
        if o.ok:
            expect_scoefs(ck, '%s vector' % nm, w, o.st, o.val, N, M, lambda i, j: (val, val), s, vec=True)
    for nm in ('zeros_coefs', 'ones_coefs', 'random_coefs'):
        s = fn_site(w, nm)
        for lab, kw in (('default', {}), ('scalar', dict(coef_type=scal)), ('vector', dict(coef_type=vect))):
            st1 = w.start(lt(N, M))
            o = w.call(st1, nm, iv(N), iv(M), **kw)
            ck.raises('%s %s mmax>nmax' % (nm, lab), o, {'ValueError': TRUE}, st1, s)
            st1 = w.start(le(M, N), lt(M, ZERO))
            o = w.call(st1, nm, iv(N), iv(M), **kw)
            ck.raises('%s %s mmax<0' % (nm, lab), o, {'ValueError': TRUE}, st1, s)
        for lab, x in (('2', iv(2)), ('-1', iv(-1)), ('string', StrV('scalar')), ('None', NONE)):
            o = w.call(st_ok, nm, iv(N), iv(M), coef_type=x)
            ck.raises('%s coef_type=%s' % (nm, lab), o, {'TypeError': TRUE}, st_ok, s)
        o = w.call(st_ok, nm, iv(N), iv(M))
        if o.ok and expect_class(ck, nm + ' class', w, o.st, o.val, 'ScalarCoefs', s):
            ck.eq(nm + ' nmax', as_term(w, o.st, prop(w, o.st, o.val, 'nmax')), N, o.st, s)
            ck.eq(nm + ' mmax', as_term(w, o.st, prop(w, o.st, o.val, 'mmax')), M, o.st, s)
        o = w.call(st_ok, nm, iv(N), iv(M), coef_type=vect)
        if o.ok and expect_class(ck, nm + ' vector class', w, o.st, o.val, 'VectorCoefs', s):
            ck.eq(nm + ' vector nmax', as_term(w, o.st, prop(w, o.st, o.val, 'nmax')), N, o.st, s)
            ck.eq(nm + ' vector mmax', as_term(w, o.st, prop(w, o.st, o.val, 'mmax')), M, o.st, s)


def t_fac_patt(ck):
    w = ck.world()
    st = w.start(le(TWO, R), le(TWO, C))
    even = eq(mod_(C, TWO), ZERO)
    st_ok = w.start(*patt_facts())
    scal, vect = w.get(st, 'scalar'), w.get(st, 'vector')
    for nm, val in (('zeros_patt_uniform', ZERO), ('ones_patt_uniform', ONE), ('random_patt_uniform', None)):
        s = fn_site(w, nm)
        for lab, kw in (('default', {}), ('scalar', dict(patt_type=scal)), ('vector', dict(patt_type=vect))):
            lb = '%s %s' % (nm, lab)
            o = w.call(st, nm, iv(R), iv(C), **kw)
            ck.raises(lb, o, {'ValueError': c_not(even)}, st, s)
            if not o.ok:
                continue
            cl = 'TransversePatternUniform' if lab == 'vector' else 'ScalarPatternUniform'
            if not expect_class(ck, lb + ' class', w, o.st, o.val, cl, s):
                continue
            ck.eq(lb + ' nrows', as_term(w, o.st, prop(w, o.st, o.val, 'nrows')), R, o.st, s)
            ck.eq(lb + ' ncols', as_term(w, o.st, prop(w, o.st, o.val, 'ncols')), C, o.st, s)
            if val is not None:
                for nme in (('cdata',) if lab != 'vector' else ('theta', 'phi')):
                    expect_array(ck, '%s %s' % (lb, nme), w, o.st, prop(w, o.st, o.val, nme), [R, C],
                                 lambda i, j: val, s)
        for lab, x in (('2', iv(2)), ('-1', iv(-1)), ('string', StrV('scalar')), ('None', NONE)):
            o = w.call(st_ok, nm, iv(R), iv(C), patt_type=x)
            ck.raises('%s patt_type=%s' % (nm, lab), o, {'TypeError': TRUE}, st_ok, s)
    for nm, args in (('zeros_patt_nonuniform', 1), ('ones_patt_nonuniform', 1), ('random_patt_nonuniform', 2)):
        o = w.call(st, nm, *[iv(R)] * args)
        ck.raises(nm, o, {'NotImplementedError': TRUE}, st, fn_site(w, nm))


def t_ctor(ck):
    w = ck.world()
    st = w.start(le(ZERO, k))
    v = w.array(st, 'c', [k])
    ok = c_and(size_facts() + [eq(k, ncoef(N, M))])
    s = fn_site(w, 'ScalarCoefs.__init__')
    for lab, g in (('valid sizes', size_facts()), ('mmax>nmax', [lt(N, M)]), ('mmax<0', [le(M, N), lt(M, ZERO)])):
        s1 = st.fork(*g)
        want = ne(k, ncoef(N, M)) if lab == 'valid sizes' else TRUE
        o = w.call(s1, 'ScalarCoefs', v, iv(N), iv(M))
        ck.raises('ScalarCoefs %s' % lab, o, {'ValueError': want}, s1, s)
        sv = fn_site(w, 'VectorCoefs.__init__')
        kk = isym('k2')
        s2 = s1.fork(le(ZERO, kk))
        o = w.call(s2, 'VectorCoefs', w.array(s2, 'u', [k]), w.array(s2, 'v', [kk]), iv(N), iv(M))
        if lab == 'valid sizes':
            want = c_or([ne(k, ncoef(N, M)), ne(k, kk)])
        ck.raises('VectorCoefs %s' % lab, o, {'ValueError': want}, s2, sv)
    s1 = st.fork(le(ZERO, a_), le(ZERO, b_), *patt_facts())
    o = w.call(s1, 'TransversePatternUniform', w.array(s1, 'u', [R, C]), w.array(s1, 'v', [a_, b_]),
               doublesphere=TRUE_V)
    ck.raises('TransversePatternUniform shapes', o, {'ValueError': c_or([ne(R, a_), ne(C, b_)])}, s1,
              fn_site(w, 'TransversePatternUniform.__init__'))


# ---------------------------------------------------------------- C26
def t_window(ck):
    w = ck.world()
    st = w.start(*size_facts())
    st, c = scoefs(w, st)
    s = fn_site(w, 'ScalarCoefs.window')
    win = w.array(st, 'win', [N + 1])
    o = w.meth(st, c, 'window', win)
    ck.raises('window', o, {}, st, s)
    if o.ok:
        expect_class(ck, 'window returns nothing', w, o.st, o.val, 'None', s)
        expect_scoefs(ck, 'window', w, o.st, c, N, M,
                      lambda i, j: sarr('c', pos(i, j, N)) * sarr('win', i), s)
        i = isym('i0')
        s2 = o.st.fork(le(ZERO, i), le(i, N))
        ck.eq('window leaves its argument alone', elem(w, s2, win, i), sarr('win', i), s2, s)


TASKS = {
    'C07': [t_arith(K, *op) for K in KINDS for op in OPS],
    'C08': [t_valid(K) for K in KINDS],
    'C09': [('coefficient norms', t_norm_coef), ('pattern norms', t_norm_patt), ('power', t_power),
            ('relative difference', t_relative), ('magnitudes', t_mag)],
    'C10': [('monopole', t_mono)],
    'C13': [('coefficient factories', t_fac_coefs), ('pattern factories', t_fac_patt), ('constructors', t_ctor)],
    'C26': [('window', t_window)],
}
