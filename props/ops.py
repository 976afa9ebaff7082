"""C28: the Fourier-domain operators on arrays with an even number of rows."""
from .fix import *

B = isym('B')
L2, Le, i, j = isym('L'), isym('Le'), isym('i'), isym('j')
IMAG = T.I
BUD = dict(budget=True)


def inarr(i, j, rows, cols=C):
    return [le(ZERO, i), lt(i, rows), le(ZERO, j), lt(j, cols)]


def f(*ix):
    return sarr('f', *ix)


def g(*ix):
    return sarr('g', *ix)


def run_op(ck, fn, arrs, facts):
    """-> world, state after the call, arrays, returned value, site"""
    w = ck.world()
    st = w.start(*facts)
    s = fn_site(w, 'ops.' + fn)
    vs = [w.array(st, nm, shape) for nm, shape in arrs]
    o = w.call(st, 'ops.' + fn, *vs)
    return w, st, o, vs, s


def even():
    return [le(ONE, B), le(ONE, C)]


def t_inplace(fn, want, rows=None, facts=None, low=TWO, splits=()):
    """fn overwrites its array with want(i, j)"""
    rows = 2 * B if rows is None else rows

    def run(ck):
        w, st, o, (a,), s = run_op(ck, fn, [('f', [rows, C])], facts or [le(low, B), le(ONE, C)])
        ck.raises(fn, o, {}, st, s)
        if o.ok:
            expect_array(ck, fn, w, o.st, a, [rows, C], want, s, idx=[i, j], splits=list(splits))
    return (fn, run)


def t_fix(ck):
    w, st, o, (a,), s = run_op(ck, 'fix_even_row_data_fc', [('f', [L2, C])], [le(ONE, L2), le(ONE, C)])
    ck.raises('fix_even_row_data_fc', o, {}, st, s)
    if o.ok:
        expect_array(ck, 'fix_even_row_data_fc', w, o.st, a, [L2, C], lambda i, j: ite(eq(2 * i, L2), ZERO, f(i, j)), s,
                     idx=[i, j], splits=[eq(mod_(L2, TWO), ZERO)])


def t_pad(ck):
    half = T.fdiv(L2, TWO)
    w, st, o, (a, b), s = run_op(ck, 'pad_rows_fdata', [('f', [L2, C]), ('g', [Le, C])],
                                 [le(TWO, L2), le(ONE, C), le(ONE, Le)])
    ck.raises('pad_rows_fdata', o, {'Exception': lt(Le, L2)}, st, s)
    if o.ok:
        expect_array(ck, 'pad_rows_fdata extended', w, o.st, b, [Le, C],
                     lambda i, j: ite(lt(i, half), f(i, j), ite(lt(Le - half, i), f(i - Le + L2, j), ZERO)), s, idx=[i, j],
                     splits=[eq(mod_(L2, TWO), ZERO)])
        expect_array(ck, 'pad_rows_fdata source', w, o.st, a, [L2, C], f, s, idx=[i, j])


def cut(F_, i, j):
    """data with the two rows next to the Nyquist row removed"""
    return ite(c_or([eq(i, B - 1), eq(i, B + 1)]), ZERO, F_(i, j))


def sin_of(F_, i, j):
    up = ite(eq(i, ZERO), 2 * B - 1, i - 1)
    dn = ite(eq(i, 2 * B - 1), ZERO, i + 1)
    return (cut(F_, up, j) - cut(F_, dn, j)) / (2 * IMAG)


def freq(i, half):
    return ite(lt(i, half), i, i - 2 * half)


def t_divsin(ck):
    """g = f / sin: the unique g that vanishes at and next to the Nyquist row
    and satisfies (g[k-1] - g[k+1]) / 2i = f[k] inside"""
    w, st, o, (a,), s = run_op(ck, 'divsin_fc', [('f', [2 * B, C])], [le(num(3), B), le(ONE, C)])
    ck.raises('divsin_fc', o, {}, st, s)
    if not o.ok:
        return
    st = o.st
    row = lambda k: ite(lt(k, ZERO), k + 2 * B, k)

    def at(st, k):
        return elem(w, st, a, row(k), j)
    jj = [le(ZERO, j), lt(j, C)]
    k = isym('k')
    s2 = st.fork(*jj)
    ck.eq('divsin_fc: first row', at(s2, B - 2), 2 * IMAG * f(B - 1, j), s2, s)
    for lab, r in (('B-1', B - 1), ('-B', -B), ('-B+1', 1 - B)):
        ck.eq('divsin_fc: row %s is zero' % lab, at(s2, r), ZERO, s2, s)
    for lab, cs in (('k > 0', [lt(ZERO, k)]), ('k = 0', [eq(k, ZERO)]), ('k < 0', [lt(k, ZERO)])):
        s3 = st.fork(*(jj + cs + [lt(2 - B, k), le(k, B - 2)]))
        ck.eq('divsin_fc: step, %s' % lab, at(s3, k - 1) - at(s3, k + 1), 2 * IMAG * f(row(k), j), s3, s)


def t_sinl(ck):
    w, st, o, (a, b), s = run_op(ck, 'sinLdot_fc', [('f', [2 * B, 2 * C]), ('g', [2 * B, 2 * C])], [le(TWO, B), le(ONE, C)])
    ck.raises('sinLdot_fc', o, {}, st, s)
    if o.ok:
        want = lambda i, j: IMAG * (IMAG * freq(j, C) * f(i, j) - IMAG * freq(i, B) * sin_of(g, i, j))
        expect_array(ck, 'sinLdot_fc', w, o.st, o.val, [2 * B, 2 * C], want, s, idx=[i, j])


def t_l(ck):
    w = ck.world(key='ops')
    from sa.kern import Kernels
    K = Kernels()
    w.I.summaries['spherepy.ops.divsin_fc'] = K.py_divsin
    st = w.start(le(num(3), B), le(ONE, C))
    s = fn_site(w, 'ops.L_fc')
    a = w.array(st, 'f', [2 * B, 2 * C])
    o = w.call(st, 'ops.L_fc', a)
    ck.raises('L_fc', o, {}, st, s)
    if not o.ok or not expect_class(ck, 'L_fc pair', w, o.st, o.val, 'tuple', s):
        return
    ps = [T.fresh_atom('d'), T.fresh_atom('d')]
    x, y = [from_atom(p) for p in ps]
    lam = T.mk_lam(ps, IMAG * freq(y, C) * f(x, y))
    expect_array(ck, 'L_fc first', w, o.st, o.val.items[0], [2 * B, 2 * C],
                 lambda i, j: IMAG * T.dft_('divsin', [2 * B, 2 * C], lam, [i, j]), s, idx=[i, j])
    expect_array(ck, 'L_fc second', w, o.st, o.val.items[1], [2 * B, 2 * C],
                 lambda i, j: freq(i, B) * f(i, j), s, idx=[i, j])


OPS = [('fix_even_row_data_fc', t_fix), ('pad_rows_fdata', t_pad), t_inplace('sin_fc', lambda i, j: sin_of(f, i, j)),
       ('divsin_fc', t_divsin),
       t_inplace('dtheta_fc', lambda i, j: IMAG * freq(i, B) * f(i, j), low=ONE),
       ('dphi_fc', None), ('sinLdot_fc', t_sinl), ('L_fc', t_l)]


def t_dphi(ck):
    w, st, o, (a,), s = run_op(ck, 'dphi_fc', [('f', [L2, 2 * C])], [le(ONE, L2), le(ONE, C)])
    ck.raises('dphi_fc', o, {}, st, s)
    if o.ok:
        expect_array(ck, 'dphi_fc', w, o.st, a, [L2, 2 * C], lambda i, j: IMAG * freq(j, C) * f(i, j), s, idx=[i, j])


OPS = [(nm, t_dphi if fn is None else fn) for nm, fn in OPS]
TASKS = {'C28': OPS}
