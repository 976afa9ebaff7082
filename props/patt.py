"""C04 mode layout, C20 double-sphere symmetry, C22 sampled harmonics."""
from .fix import *
from .kernels import ynu, pworld
from sa import terms as T
from fractions import Fraction

i, j, q = isym('i'), isym('j'), isym('q')
n2, m2 = isym('n2'), isym('m2')
D = 2 * R - 2
H = isym('H')
CC = 2 * H              # even number of columns


# ---------------------------------------------------------------- C04
def t_read(ck):
    """a vector of modes is read back in the documented order"""
    w = ck.world()
    st = w.start(*size_facts())
    s = fn_site(w, 'ScalarCoefs.__getitem__')
    st, c = scoefs(w, st, 'c')
    s2 = st.fork(valid(n, m, N, M))
    ck.eq('ScalarCoefs(v)[n, m] is v[position]', mode(w, s2, c, n, m), sarr('c', pos(n, m, N)), s2, s)
    st, c = vcoefs(w, st)
    s2 = st.fork(valid(n, m, N, M), le(ONE, n))
    for x, nm in zip(mode(w, s2, c, n, m), ('v1', 'v2')):
        ck.eq('VectorCoefs(v1, v2)[n, m] is %s[position]' % nm, x, sarr(nm, pos(n, m, N)), s2, s)


def t_write(ck):
    """writing one mode changes the entry at its position only (seen through the other modes)"""
    w = ck.world()
    st = w.start(valid(n, m, N, M), valid(n2, m2, N, M), *size_facts())
    s = fn_site(w, 'ScalarCoefs.__setitem__')
    st, c = scoefs(w, st, 'c')
    o = w.setitem(st, c, tup(n, m), cnum('x'))
    if not o.ok:
        raise Skip('no assignment')
    for lab, cs, want in (('same mode', [eq(n, n2), eq(m, m2)], csym('x')),
                          ('other order', [ne(m, m2)], sarr('c', pos(n2, m2, N))),
                          ('other degree', [eq(m, m2), ne(n, n2)], sarr('c', pos(n2, m2, N)))):
        s2 = o.st.fork(*cs)
        mm = m if lab != 'other order' else m2
        ck.eq('two modes never share an entry, ' + lab, mode(w, s2, c, n2, mm), want, s2, s,
              splits=[lt(abs_(m), abs_(m2)), lt(abs_(m2), abs_(m)), lt(m, ZERO)], hints=[(abs_(m) - 1, N - abs_(m))])


def t_size(ck):
    w = ck.world()
    for cls, mk in (('ScalarCoefs', scoefs), ('VectorCoefs', vcoefs)):
        st = w.start(*size_facts())
        s = fn_site(w, cls + '.size')
        st, c = mk(w, st)
        o = w.run(st, lambda x: w.I.getattr(x, c, 'size'))
        ck.raises(cls + '.size', o, {}, st, s)
        if o.ok:
            ck.eq(cls + '.size is the number of modes', as_term(w, o.st, o.val), ncoef(N, M), o.st, s)


def t_mindx(ck):
    w = ck.world()
    st = w.start(*size_facts())
    s = fn_site(w, 'pysphi.mindx')
    o = w.call(st, 'pysphi.mindx', iv(m), iv(N), iv(M))
    ck.raises('mindx', o, {'Exception': lt(M, abs_(m))}, st, s)
    if not o.ok:
        return
    for lab, cs in (('m = 0', [eq(m, ZERO)]), ('m > 0', [lt(ZERO, m)]), ('m < 0', [lt(m, ZERO)])):
        s2 = o.st.fork(*cs)
        mm = ZERO if lab == 'm = 0' else m
        ck.eq('mindx is the position of the first mode of order m, ' + lab, as_term(w, s2, o.val), pos(abs_(mm), mm, N), s2, s)


def t_blocks(ck):
    """the blocks of the orders follow each other without gap or overlap and fill the vector"""
    w = ck.world()
    s = fn_site(w, 'pysphi.mindx')

    def at(st, x):
        o = w.call(st, 'pysphi.mindx', iv(x), iv(N), iv(M))
        if not o.ok:
            raise Skip('mindx raises')
        return o.st, as_term(w, o.st, o.val)
    st = w.start(lt(ZERO, m), lt(m, M), *size_facts())
    st, a = at(st, -m)
    st, b = at(st, m)
    st, c = at(st, -(m + 1))
    ck.eq('block of m follows the block of -m', b, a + N + 1 - m, st, s)
    ck.eq('block of -(m + 1) follows the block of m', c, b + N + 1 - m, st, s)
    st = w.start(*size_facts())
    st, a = at(st, ZERO)
    ck.eq('the first block starts the vector', a, ZERO, st, s)
    s1 = st.fork(lt(ZERO, M))
    s1, b = at(s1, num(-1))
    ck.eq('block of -1 follows the block of 0', b, N + 1, s1, s)
    s1, e = at(s1, M)
    st2, c = scoefs(w, s1, 'c')
    ck.eq('the last block ends the vector', e + N + 1 - M, as_term(w, st2, prop(w, st2, c, 'size')), st2, s)


def t_array2d(ck):
    """row n, column mmax + m of the two-dimensional array used for the plots"""
    w = ck.world()
    st = w.start(*size_facts())
    s = fn_site(w, 'ScalarCoefs._array_2d_repr')
    st, c = scoefs(w, st, 'c')
    o = w.run(st, lambda x: w.I.call(x, w.I.getattr(x, c, '_array_2d_repr'), [], {}))
    ck.raises('two-dimensional form', o, {}, st, s)
    if not o.ok:
        return
    for lab, cs, want in (('mode', [le(abs_(m), n)], sarr('c', pos(n, m, N))), ('no mode', [lt(n, abs_(m))], ZERO)):
        s2 = o.st.fork(le(ZERO, n), le(n, N), le(abs_(m), M), *cs)
        ck.eq('two-dimensional form, ' + lab, elem(w, s2, o.val, n, M + m), want, s2, s, splits=[eq(m, ZERO), lt(m, ZERO)])


# ---------------------------------------------------------------- C20
def mirror(get, sgn, w, st, ck, name, s):
    """get(i, j) of the doubled data equals sgn times the value at the mirrored point"""
    for lab, cs, ii in (('pole row 0', [], ZERO), ('pole row nrows - 1', [], R - 1),
                        ('upper rows', [le(ONE, i), lt(i, R - 1)], i), ('lower rows', [le(R, i), lt(i, D)], i)):
        for lb2, c2, jj, j2 in (('left', [lt(j, H)], j, j + H), ('right', [le(H, j)], j, j - H)):
            s2 = st.fork(le(ZERO, j), lt(j, CC), *(cs + c2))
            if s2.F.contradictory():
                continue
            i2 = ii if ii is ZERO or lab == 'pole row nrows - 1' else D - ii
            ck.eq('%s: mirror symmetry, %s, %s half' % (name, lab, lb2), get(s2, i2, j2), sgn * get(s2, ii, jj), s2, s)


def arrs_of(w, st, v, what):
    d = prop(w, st, v, what)
    return list(d.items) if isinstance(d, TupleV) else [d]


def built(cls, sgn, names, splits=()):
    def run(ck):
        w = ck.world()
        st = w.start(le(TWO, R), le(ONE, H))
        s = fn_site(w, cls + '.__init__')
        st, p = w.must(w.call(st, cls, *[w.array(st, nm, [R, CC]) for nm in names]))
        for nm, d in zip(names, arrs_of(w, st, p, 'doublesphere')):
            for k, (a, b) in enumerate(zip(shape_of(w, st, d), [D, CC])):
                ck.eq('%s: doubled shape[%d], %s' % (cls, k, nm), a, b, st, s)
            mirror(lambda s2, a, b: elem(w, s2, d, a, b), sgn, w, st, ck, '%s, %s' % (cls, nm), s)
        for nm, a in zip(names, arrs_of(w, st, p, 'array')):
            s2 = st.fork(le(ONE, i), lt(i, R - 1), le(ZERO, j), lt(j, CC))
            if not s2.F.contradictory():
                ck.eq('%s: rows between the poles are the given rows, %s' % (cls, nm), elem(w, s2, a, i, j), sarr(nm, i, j), s2, s)
            for lab, ii in (('0', ZERO), ('nrows - 1', R - 1)):
                for lb2, c2, j2 in (('left', [lt(j, H)], j + H), ('right', [le(H, j)], j - H)):
                    s2 = st.fork(le(ZERO, j), lt(j, CC), *c2)
                    t, u = sarr(nm, ii, j), sgn * sarr(nm, ii, j2)
                    want = ite(c_or([eq(t, ZERO), eq(u, ZERO)]), t + u, (t + u).scale(Fraction(1, 2)))
                    ck.eq('%s: pole row %s is the mean with its mirror point, %s half, %s' % (cls, lab, lb2, nm),
                          elem(w, s2, a, ii, j), want, s2, s)
    return (cls, run)


def views(cls, names):
    """the sphere arrays are the first nrows rows of the doubled data, the sizes fit"""
    def run(ck):
        w = ck.world()
        st = w.start(le(TWO, R), le(ONE, H))
        st, p = (dpatt if len(names) == 1 else tdpatt)(w, st, *names, C_=CC)
        s = fn_site(w, cls + '.array')
        ck.eq(cls + '.nrows', as_term(w, st, prop(w, st, p, 'nrows')), R, st, s)
        ck.eq(cls + '.ncols', as_term(w, st, prop(w, st, p, 'ncols')), CC, st, s)
        sh = prop(w, st, p, 'shape')
        if isinstance(sh, TupleV) and len(sh.items) == 2:
            for k, (x, y) in enumerate(zip(sh.items, [R, CC])):
                ck.eq('%s.shape[%d]' % (cls, k), as_term(w, st, x), y, st, s)
        wh = [('array', names), ('doublesphere', names)] + \
            ([('cdata', names)] if len(names) == 1 else [('theta', names[:1]), ('phi', names[1:]), ('theta_double', names[:1]),
                                                         ('phi_double', names[1:])])
        for what, nms in wh:
            rows = D if 'double' in what else R
            for nm, a in zip(nms, arrs_of(w, st, p, what)):
                expect_array(ck, '%s.%s, %s' % (cls, what, nm), w, st, a, [rows, CC], lambda x, y: sarr(nm, x, y), s, idx=[i, j])
        o = w.call(st, 'array', p)
        if o.ok:
            v = o.val
            for nm, a in zip(names, list(v.items) if isinstance(v, TupleV) else [v]):
                expect_array(ck, 'array(%s), %s' % (cls, nm), w, o.st, a, [R, CC], lambda x, y: sarr(nm, x, y), s, idx=[i, j])
    return (cls + ' views', run)


def double(sgn):
    """double_sphere on any array with an even number of columns and 2 (nrows - 1) rows"""
    def run(ck):
        w = ck.world()
        st = w.start(le(TWO, R), le(ONE, H))
        s = fn_site(w, 'double_sphere')
        o = w.call(st, 'double_sphere', w.array(st, 'p', [D, CC]), iv(sgn))
        ck.raises('double_sphere', o, {}, st, s)
        if o.ok:
            mirror(lambda s2, a, b: elem(w, s2, o.val, a, b), num(sgn), w, o.st, ck, 'double_sphere(., %d)' % sgn, s)
    return ('double_sphere %d' % sgn, run)


# ---------------------------------------------------------------- C22
def t_harm(ck, cf):
    w = pworld(ck)
    st = w.start(le(TWO, R), cf, le(abs_(m), n))
    s = fn_site(w, 'sph_harmonic_tp')
    o = w.call(st, 'sph_harmonic_tp', iv(R), iv(C), iv(n), iv(m))
    ck.raises('sph_harmonic_tp', o, {}, st, s)
    if not o.ok:
        return
    PI = T.PI if hasattr(T, 'PI') else from_atom(mk_atom('pi', (), 'real'))
    th = i * PI * T.inverse(R - 1)
    ph = ZERO if cf == eq(C, ONE) else 2 * j * PI * T.inverse(C)
    x = T.fresh_atom('k')
    k_ = from_atom(x)
    sg = ONE - 2 * mod_(m, TWO)
    # Fourier coefficient of exp(i k theta): y[|k|], with the sign (-1)**m for k < 0
    y = ite(lt(k_, n), sg * ynu(n, m, n - k_), ynu(n, m, k_ - n))
    want = T.ipow(m) * T.exp_(T.I * m * ph) * T.mk_sum(x, ZERO, 2 * n, y * T.exp_(T.I * (k_ - n) * th))
    expect_array(ck, 'sph_harmonic_tp', w, o.st, o.val, [R, C], lambda *_: want, s, idx=[i, j])


TASKS = {
    'C04': [('reading', t_read), ('writing', t_write), ('size', t_size), ('mindx', t_mindx), ('blocks', t_blocks),
            ('two-dimensional form', t_array2d)],
    'C20': [built('ScalarPatternUniform', ONE, ['p']), built('TransversePatternUniform', num(-1), ['tp', 'pp']),
            views('ScalarPatternUniform', ['p']), views('TransversePatternUniform', ['tp', 'pp']), double(1), double(-1)],
    'C22': [('sph_harmonic_tp', lambda ck: t_harm(ck, le(TWO, C))), ('sph_harmonic_tp, one column', lambda ck: t_harm(ck, eq(C, ONE)))],
}
