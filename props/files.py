"""C19: saved files load back to the same object; files in the documented form load."""
from .fix import *
from sa import core as CO

i, j, H = isym('i'), isym('j'), isym('H')
C = 2 * H               # even number of columns
SIZES = [le(TWO, R), le(ONE, H)]
F1, F2 = StrV('one.txt'), StrV('two.txt')


def cell(ck, w, st, name, a, b, s):
    """two arrays have the same shape and elements"""
    ix = [i, j]
    sa, sb = shape_of(w, st, a), shape_of(w, st, b)
    if len(sa) != len(sb):
        return ck.violated(name, 'number of dimensions', s, got=len(sa), expected=len(sb))
    for k, (x, y) in enumerate(zip(sa, sb)):
        ck.eq('%s, shape[%d]' % (name, k), x, y, st, s)
    s2 = st.fork(*[c for v, d in zip(ix, sb) for c in (le(ZERO, v), lt(v, d))])
    for lab, cs in (('first row', [eq(i, ZERO)]), ('rows of the sphere', [le(ONE, i), lt(i, R - 1)]),
                    ('last row of the sphere', [eq(i, R - 1)]), ('doubled rows', [le(R, i)])):
        for lb2, c2 in (('left', lt(j, H)), ('right', le(H, j))):
            s3 = s2.fork(c2, *cs)
            if not s3.F.contradictory():
                ii = {'first row': ZERO, 'last row of the sphere': R - 1}.get(lab, i)
                ck.eq('%s, %s, %s half' % (name, lab, lb2), elem(w, s3, a, ii, j), elem(w, s3, b, ii, j), s3, s)


def same_patt(ck, w, st, name, got, want, s):
    for what in ('nrows', 'ncols'):
        ck.eq('%s, %s' % (name, what), as_term(w, st, prop(w, st, got, what)), as_term(w, st, prop(w, st, want, what)), st, s)
    a, b = prop(w, st, got, 'doublesphere'), prop(w, st, want, 'doublesphere')
    if isinstance(a, TupleV) and isinstance(b, TupleV):
        for x, y, nm in zip(a.items, b.items, ('theta', 'phi')):
            cell(ck, w, st, name + ', ' + nm, x, y, s)
    else:
        cell(ck, w, st, name, a, b, s)


def done(ck, name, o, st, s):
    ck.raises(name, o, {}, st, s)
    if not o.ok:
        raise Skip(name + ' does not return')
    return o.st, o.val


def same_coef(ck, w, st, name, c, arr, N_, M_, s):
    ck.eq(name + ', nmax', as_term(w, st, prop(w, st, c, 'nmax')), N_, st, s)
    ck.eq(name + ', mmax', as_term(w, st, prop(w, st, c, 'mmax')), M_, st, s)
    s2 = st.fork(valid(n, m, N_, M_))
    ck.eq(name + ', modes', mode(w, s2, c, n, m), sarr(arr, pos(n, m, N_)), s2, s, splits=[eq(m, ZERO), lt(m, ZERO)],
          hints=[(abs_(m) - 1, N_ - abs_(m))])


def t_coef(ck):
    w = ck.world()
    st = w.start(*(size_facts() + size_facts(N2, M2)))
    s = fn_site(w, 'file.save_coef')
    put_file(w, st, F1, [line(iv(N2), iv(M2)), doc_modes('old', ncoef(N2, M2))])
    st, c = scoefs(w, st, 'c')
    st, _ = done(ck, 'save_coef', w.call(st, 'file.save_coef', c, F1), st, s)
    s1, d = done(ck, 'load_coef', w.call(st, 'file.load_coef', F1), st, s)
    same_coef(ck, w, s1, 'load_coef(save_coef(c))', d, 'c', N, M, fn_site(w, 'file.load_coef'))
    # a second save replaces the first one
    st, c2 = scoefs(w, st, 'c2', N2, M2)
    st, _ = done(ck, 'save_coef over an old file', w.call(st, 'file.save_coef', c2, F1), st, s)
    st, d = done(ck, 'load_coef of the new file', w.call(st, 'file.load_coef', F1), st, s)
    same_coef(ck, w, st, 'saved over another file', d, 'c2', N2, M2, s)


def t_patt(ck):
    w = ck.world()
    st = w.start(*SIZES)
    s = fn_site(w, 'file.save_patt')
    put_file(w, st, F1, doc_patt('old', R, C))
    st, p = dpatt(w, st, C_=C)
    st, want = w.must(w.call(st, 'ScalarPatternUniform', prop(w, st, p, 'array')))
    st, _ = done(ck, 'save_patt', w.call(st, 'file.save_patt', p, F1), st, s)
    s = fn_site(w, 'file.load_patt')
    s1, q = done(ck, 'load_patt', w.call(st, 'file.load_patt', F1), st, s)
    same_patt(ck, w, s1, 'load_patt(save_patt(p))', q, want, s)
    s1, a = done(ck, 'load_fdata', w.call(st, 'file.load_fdata', F1), st, s)
    cell(ck, w, s1, 'load_fdata(save_patt(p))', a, prop(w, s1, p, 'array'), s)


def t_vpatt(ck):
    w = ck.world()
    st = w.start(*SIZES)
    s = fn_site(w, 'file.load_vpatt')
    st, p = dpatt(w, st, 'p', C_=C)
    st, q = dpatt(w, st, 'q', C_=C)
    st, want = w.must(w.call(st, 'TransversePatternUniform', prop(w, st, p, 'array'), prop(w, st, q, 'array')))
    st, _ = done(ck, 'save_patt', w.call(st, 'file.save_patt', p, F1), st, s)
    st, _ = done(ck, 'save_patt', w.call(st, 'file.save_patt', q, F2), st, s)
    st, v = done(ck, 'load_vpatt', w.call(st, 'file.load_vpatt', F1, F2), st, s)
    same_patt(ck, w, st, 'load_vpatt', v, want, s)


def put_file(w, st, name, segs):
    w.I.hid(st)
    fid = st.new('file', CO.FileRec(list(segs), name))
    st.mut('%fs').d[w.I.fkey(name)] = CO.FileV(fid, 'w')


def line(*xs):
    parts = []
    for k, x in enumerate(xs):
        if k:
            parts.append(',')
        parts.append(x if isinstance(x, str) else ('f', x, '', None) if x.ty == 'int' else ('f', x, '.16e', None))
    return ('one', StrV(*(parts + ['\n'])))


def fl(t):
    return NumV(t, 'float')


def ri(z):
    return fl(T.re_im(z)[0]), fl(T.re_im(z)[1])


def doc_patt(name, R_, C_):
    a, b = T.fresh_atom('r'), T.fresh_atom('c')
    r, c = from_atom(a), from_atom(b)
    inner = ('rep', C_, b, (line(iv(r), iv(c), *ri(sarr(name, r, c))),))
    return [line(iv(R_), iv(C_)), ('rep', R_, a, (inner,))]


def doc_modes(name, L):
    a = T.fresh_atom('q')
    return ('rep', L, a, (line(*ri(sarr(name, from_atom(a)))),))


def t_doc(ck):
    """files in the documented form"""
    w = ck.world()
    st = w.start(*(SIZES + size_facts()))
    put_file(w, st, F1, doc_patt('p', R, C))
    put_file(w, st, F2, [line(iv(N), iv(M)), doc_modes('c', ncoef(N, M))])
    s = fn_site(w, 'file.load_patt')
    st, want = w.must(w.call(st, 'ScalarPatternUniform', w.array(st, 'p', [R, C])))
    s1, p = done(ck, 'load_patt', w.call(st, 'file.load_patt', F1), st, s)
    same_patt(ck, w, s1, 'load_patt', p, want, s)
    s = fn_site(w, 'file.load_coef')
    s1, c = done(ck, 'load_coef', w.call(st, 'file.load_coef', F2), st, s)
    same_coef(ck, w, s1, 'load_coef', c, 'c', N, M, s)


def t_vcoef(ck):
    w = ck.world()
    st = w.start(*size_facts())
    s = fn_site(w, 'file.load_vcoef')
    d = fl(sym('d', 'real'))
    for lab, end in (('', '\n'), (' without a last newline', '')):
        put_file(w, st, F1, [line(iv(N), iv(M), d), doc_modes('v1', ncoef(N, M)), ('one', StrV('break\n')),
                             doc_modes('v2', ncoef(N, M))])
    s1, r = done(ck, 'load_vcoef', w.call(st, 'file.load_vcoef', F1), st, s)
    if not isinstance(r, TupleV) or len(r.items) != 2:
        raise Skip('load_vcoef does not return a pair')
    v, e = r.items
    ck.eq('load_vcoef, directivity', as_term(w, s1, e), d.t, s1, s)
    ck.eq('load_vcoef, nmax', as_term(w, s1, prop(w, s1, v, 'nmax')), N, s1, s)
    ck.eq('load_vcoef, mmax', as_term(w, s1, prop(w, s1, v, 'mmax')), M, s1, s)
    s2 = s1.fork(valid(n, m, N, M), le(ONE, n))
    for x, nm in zip(mode(w, s2, v, n, m), ('v1', 'v2')):
        ck.eq('load_vcoef, modes ' + nm, x, sarr(nm, pos(n, m, N)), s2, s, splits=[eq(m, ZERO), lt(m, ZERO)],
              hints=[(abs_(m) - 1, N - abs_(m))])


TASKS = {'C19': [('coefficients', t_coef), ('patterns', t_patt), ('vector patterns', t_vpatt), ('documented files', t_doc),
                 ('vector coefficients', t_vcoef)]}
