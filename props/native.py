"""The C kernels (src/csphi.c): what they compute, what memory they touch, what they free."""
from .kernels import *
from sa.cint import CUnit
from sa import cint
from sa import core as CO
from sa.cint import fault, FAULT
from sa.kern import Kernels
from sa.cwrap import wrapper_args, layouts
from fractions import Fraction

CF = 'src/csphi.c'
_cu = {}


def cworld(ck):
    w = ck.world(key='native')
    w.I.summaries.clear()
    w.__dict__.pop('start', None)
    if id(w) not in _cu:
        _cu.clear()
        _cu[id(w)] = CUnit(w)
    if getattr(ck, 'before', None) is not None:
        w.start = lambda *cs: ck.before(w, *cs)
    return w, _cu[id(w)]


def unit_of(ck):
    return cworld(ck)[1].unit


def csite(cu, fn):
    return {'function': fn, 'file': CF, 'line': cu.unit.lines.get(fn, 0)}


IMPRECISE = ('C read', 'C write', 'memset', 'memcpy', 'kiss_fft', 'free', 'size of an allocation')


def kept(ck, cu, name, st, s2, keep, s):
    """the arrays a function only reads"""
    w = cu.w
    lost = [u for u in w.I.unknowns if u.startswith(IMPRECISE)]
    for lab, i in keep:
        what = '%s: %s unchanged' % (name, lab)
        r, r2 = st.heap[i], s2.heap.get(i)
        if r2 is not None and r2.content is r.content:
            if lost:
                ck.undecided(what, 'not followed: %s' % lost[:3], s)
            else:
                ck.proved(what, s)
            continue
        ix = [isym('i%d' % k) for k in range(len(r.shape))]
        s3 = s2.fork(*[c for a, b in zip(ix, r.shape) for c in (le(ZERO, a), lt(a, b))])
        ck.eq(what, s3.get(i).content(*ix), r.content(*ix), s3, s)


def done(ck, cu, name, o, st, s, keep=()):
    """memory faults (C14), blocks left allocated (C15); true when the values are to be compared"""
    I = cu.w.I
    keep = [(l, a.buf) for l, a in keep]
    if getattr(ck, 'capture', None) is not None:
        ck.capture.append((o, st, keep))
        return False
    if o.ok and ck.prop not in ('C14', 'C15', 'C01'):
        kept(ck, cu, name, st, o.st, keep, s)
    if ck.prop not in ('C15', 'C01'):
        ck.raises(name, o, {}, st, s)
    if ck.prop == 'C14':
        lost = [u for u in I.unknowns if u.startswith(IMPRECISE)]
        if lost:
            ck.undecided(name + ' accesses', 'not followed: %s' % lost[:3], s)
        elif o.ok or o.recs:
            acc = sorted(set(I.memsites), key=str)
            ck.proved(name + ' accesses', s, '%d conditions at %d sites examined' % (len(acc), len(set(a[:2] for a in acc))))
        if not o.ok:
            ck.undecided(name + ' completes', 'no normal completion', s)
    if ck.prop == 'C15' and o.ok:
        lost = [u for u in I.unknowns if u.startswith(('free', 'size of an allocation'))]
        if lost:
            ck.undecided(name + ' blocks', 'not followed: %s' % lost[:3], s)
            return False
        pre = cu.blocks(st)
        bl = cu.blocks(o.st)
        for key in pre:
            c = bl.pop(key, None)
            if c is None:
                ck.undecided(name + ' leaves the caller\'s blocks alone', 'unknown state', s)
            else:
                ck.never(name + ' leaves the caller\'s blocks alone', c_not(c), o.st, s, 'block of the caller freed')
        for j, (key, c) in enumerate(sorted(bl.items(), key=str)):
            if c is None:
                ck.undecided('%s block %d' % (name, j + 1), 'unknown state', s)
            else:
                ck.never('%s frees block %d' % (name, j + 1), c, o.st, s, 'block allocated and not freed on return')
        for s2, e, where in o.recs:
            if 'freed twice' in str(e) or 'not allocated here' in str(e) or 'inner pointer' in str(e):
                ck.never('%s %s' % (name, e), c_and(o.conds(s2)), st, s, 'unexpected %r at %s' % (e, where))
        if not bl:
            ck.proved(name + ' allocates nothing', s)
    return o.ok and ck.prop not in ('C14', 'C15', 'C01')


def c_ynunm(ck):
    w, cu = cworld(ck)
    st = w.start(*y_facts())
    s = csite(cu, 'ynunm')
    b = w.array(st, 'y', [L], dtype='float64')
    o = cu.call(st, 'ynunm', iv(n), iv(m), b, iv(L))
    if done(ck, cu, 'C ynunm', o, st, s):
        check_y(ck, lambda s2, k: elem(w, s2, b, k), o.st, 'C ynunm', s)


def c_nextq(ck):
    w, cu = cworld(ck)
    Q = isym('Q')
    st = w.start(le(ONE, Q))
    s = csite(cu, 'FindQ')
    o = cu.call(st, 'FindQ', iv(Q))
    if done(ck, cu, 'C FindQ', o, st, s):
        ck.holds('C FindQ is large enough', le(Q, as_term(w, o.st, o.val)), o.st, s)




def num_args(I, d, names):
    v = [I.as_num(d[k]) if k in d else None for k in names]
    if None in v or any(x.ty != 'int' for x in v):
        return None
    return [x.t for x in v]


def scratch(w, st, view):
    w.I.clobber(st, view)


def summaries(ck, full=()):
    """world in which the proved parts are replaced by what they compute"""
    pure = lambda f: not unit_of(ck).dirty(f)[0]
    y, p = pure('ynunm') and holds(ck, 'C ynunm', c_ynunm), pure('FindQ') and holds(ck, 'C FindQ', c_nextq)
    bn, sd, cv = [bool(full) and full == 'a' and pure(f) and holds(ck, k, t) for k, t, f in
                  (('C bnm_fc', c_bnm, 'bnm_fc'), ('C SData', c_sdata, 'SData'), ('convolution', c_conv, ''))]
    fv = full == 's' and pure('fcvec_m_sc') and holds(ck, 'C fcvec_m_sc', c_fcvec)
    w, cu = cworld(ck)
    I = w.I

    def ynunm(I, st, d):
        if list(d) != ['en', 'em', 'y__b', 'y__o', 'len']:
            return NotImplemented
        v = dict((k, I.as_num(d[k])) for k in ('en', 'em', 'y__o', 'len'))
        if None in v.values() or any(x.ty != 'int' for x in v.values()):
            return NotImplemented
        n_, m_, o, L_ = [v[k].t for k in ('en', 'em', 'y__o', 'len')]
        if st.F.decide(c_and([le(ZERO, n_), c_or([lt(n_, L_), lt(n_, abs_(m_))])])) is not True:
            return NotImplemented
        b = d['y__b']
        if not isinstance(b, ArrV) or b.dtype != 'float64':
            return NotImplemented
        view = cu.lib.span(st, b, o, L_, 'ynunm')
        if view is None or len(view.shape) != 1:
            return NotImplemented
        I.write_lam(st, view, lambda z: ynu(n_, m_, z[0]))
        return NONE

    def findq(I, st, d):
        v = [I.as_num(x) for x in d.values()]
        if len(v) != 1 or v[0] is None or st.F.decide(le(ONE, v[0].t)) is not True:
            return NotImplemented
        return NumV(nextq(v[0].t, 'nextq235'), 'int')

    def sdata(I, st, d):
        v = num_args(I, d, ['s__o', 'Q', 'Nrows', 'Nmax'])
        if v is None or not isinstance(d['s__b'], ArrV):
            return NotImplemented
        so, Q, rows, n_ = v
        if any(st.F.decide(c) is not True for c in (eq(mod_(rows, TWO), ZERO), le(TWO, rows), le(ZERO, n_), le(rows + n_, Q))):
            return NotImplemented
        view = cu.lib.span(st, d['s__b'], so, Q, 'SData')
        if view is None or len(view.shape) != 1:
            return NotImplemented
        I.write_lam(st, view, lambda z: sdata_value(z[0], Q, rows, n_))
        return NONE

    def kiss(st, c, inv, Q):
        if not isinstance(c, Ref) or st.get(c.id).kind != 'kiss':
            return False
        cu.lib.check_live(st, c.id, 'use')
        r = st.get(c.id).d
        return st.F.decide(c_and([eq(r['n'].t, Q), eq(r['inv'].t, num(inv))])) is True

    def bnm(I, st, d):
        v = num_args(I, d, ['Nrow', 'Ncol', 'Nmax', 'm', 'L', 'Q', 'Q2', 'Lhkm', 'Ly', 'fdata__o', 'vec__o', 'ss__o', 'ff__o',
                            'hkm__o', 'y__o'])
        if v is None:
            return NotImplemented
        rows, cols, n_, m_, L_, Q, Q2, Lh, Ly, fo, vo, so, wo, ho, yo = v
        f, vec, ss, ff, hk, yy = [d[k + '__b'] for k in ('fdata', 'vec', 'ss', 'ff', 'hkm', 'y')]
        if any(not isinstance(x, ArrV) for x in (f, vec, ss, ff, hk, yy)) or len(f.shape) != 2 or not fo.is_zero():
            return NotImplemented
        if len(set(x.buf for x in (f, vec, ss, ff, hk, yy))) != 6 or yy.dtype != 'float64':
            return NotImplemented
        sh = st.get(f.buf).shape
        need = [eq(sh[0], rows), eq(sh[1], cols), eq(mod_(rows, TWO), ZERO), le(TWO, rows), le(abs_(m_), n_), le(2 * abs_(m_) + 1, cols),
                le(rows + n_, Q), eq(Lh, n_ + 1), eq(Ly, n_ + 1)]
        if any(st.F.decide(c) is not True for c in need):
            return NotImplemented
        if not kiss(st, d['kiss_cfg_fw__b'], 0, Q) or not kiss(st, d['kiss_cfg_bw__b'], 1, Q):
            return NotImplemented
        cu.lib.check_live(st, f.buf, 'read')
        views = [cu.lib.span(st, b, o, l, 'bnm_fc') for b, o, l in
                 ((ss, so, Q), (ff, wo, Q), (hk, ho, Lh), (yy, yo, Ly), (vec, vo, n_ + 1 - abs_(m_)))]
        if any(x is None or len(x.shape) != 1 for x in views):
            return NotImplemented
        fl, gl = I.arr_lam(st, f), I.arr_lam(st, views[0])
        for x in views[1:4]:
            I.clobber(st, x)
        x, k = from_atom(T.fresh_atom('x')), from_atom(T.fresh_atom('x'))
        half = rows.scale(Fraction(1, 2))
        if cv and st.F.simp(fl(half, x)).is_zero() and (st.F.simp(gl(k)) - st.F.simp(spectrum(Q, rows, n_)(k))).is_zero():
            I.write_lam(st, views[4], lambda z: analysis(z[0] + abs_(m_), m_, lambda ix: fl(*ix), half, cols))
            return NONE
        I.write_lam(st, views[4], lambda z: bnm_value(z[0] + abs_(m_), m_, Q, rows, cols, fl, gl))
        return NONE

    def fcvec(I, st, d):
        v = num_args(I, d, ['m', 'Nmax', 'Nrow', 'Ncol', 'M', 'len', 'vec__o', 'fdata__o', 'y__o'])
        if v is None:
            return NotImplemented
        m_, n_, rows, cols, j0, Ly, vo, fo, yo = v
        vec, f, yy = [d[k + '__b'] for k in ('vec', 'fdata', 'y')]
        if any(not isinstance(x, ArrV) for x in (vec, f, yy)) or len(f.shape) != 2 or not fo.is_zero() or \
                len(set(x.buf for x in (f, vec, yy))) != 3 or yy.dtype != 'float64':
            return NotImplemented
        sh = st.get(f.buf).shape
        need = [eq(sh[0], rows), eq(sh[1], cols), eq(mod_(rows, TWO), ZERO), le(abs_(m_), n_), le(2 * n_, rows), le(TWO, rows),
                eq(Ly, n_ + 1), le(ZERO, j0), lt(j0, cols)]
        if any(st.F.decide(c) is not True for c in need):
            return NotImplemented
        cu.lib.check_live(st, f.buf, 'write')
        views = [cu.lib.span(st, b, o, l, 'fcvec_m_sc') for b, o, l in ((yy, yo, Ly), (vec, vo, n_ + 1 - abs_(m_)))]
        if any(x is None or len(x.shape) != 1 for x in views):
            return NotImplemented
        fl, vl = I.arr_lam(st, f), I.arr_lam(st, views[1])
        I.clobber(st, views[0])
        I.write_lam(st, f, lambda z: fcvec_value(z[0], z[1], m_, n_, rows, j0, fl, vl))
        return NONE
    if bn:
        I.summaries['csphi.bnm_fc'] = bnm
    if sd:
        I.summaries['csphi.SData'] = sdata
    if fv:
        I.summaries['csphi.fcvec_m_sc'] = fcvec
    if y:
        I.summaries['csphi.ynunm'] = ynunm
    if p:
        I.summaries['csphi.FindQ'] = findq
    return w, cu


def c_sdata(ck):
    w, cu = cworld(ck)
    Q = isym('Q')
    st = w.start(le(ONE, R), le(ZERO, N), le(2 * R + N, Q))
    s = csite(cu, 'SData')
    b = w.array(st, 's', [Q])
    o = cu.call(st, 'SData', b, iv(Q), iv(2 * R), iv(N))
    if done(ck, cu, 'C SData', o, st, s):
        for lab, cs in (('low', [le(q, N), lt(q, Q - 2 * R)]), ('gap', [lt(N, q), lt(q, Q - 2 * R)]),
                        ('high', [lt(Q - 2 * R, q)]), ('shared', [eq(q, Q - 2 * R)])):
            s2 = o.st.fork(le(ZERO, q), lt(q, Q), *cs)
            k = Q - 2 * R if lab == 'shared' else q
            ck.eq('C SData ' + lab, elem(w, s2, b, k), sdata_value(k, Q, 2 * R, N), s2, s, splits=[odd(R), eq(Q, 2 * R + N), odd(N)])


def sdata_value(k, Q, rows, n_):
    half = rows.scale(Fraction(1, 2))
    low = ite(le(k, n_), sigma(k + half), ZERO)
    return ite(lt(k, Q - rows), low, ite(eq(mod_(k - Q + half, TWO), ZERO), low, sigma(k - Q + half)))


def kissv(w, st, cu, Q, inv):
    from sa.pyint import DictRec, Ref, BoolV
    id = st.new('kiss', DictRec('kiss', {'n': NumV(Q, 'int'), 'inv': iv(inv)}))
    st.mut(cu.mem).d[id] = BoolV(TRUE)
    return Ref(id)


def c_bnm(ck):
    w, cu = summaries(ck)
    Q = isym('Q')
    st = w.start(le(ONE, R), le(ZERO, N), le(abs_(m), N), le(2 * abs_(m) + 1, C), le(2 * R + N, Q))
    s = csite(cu, 'bnm_fc')
    f = w.array(st, "f", [2 * R, C])
    g = w.array(st, 'g', [Q])
    ff = w.array(st, 'ff', [Q])
    hk = w.array(st, 'hk', [N + 1])
    y = w.array(st, 'yy', [N + 1], dtype='float64')
    Lv = N + 1 - abs_(m)
    vec = w.array(st, 'vec', [Lv])
    o = cu.call(st, 'bnm_fc', f, iv(2 * R), iv(C), iv(N), iv(m), vec, iv(Lv), g, iv(Q), ff, iv(Q), hk, iv(N + 1), y, iv(N + 1),
                (kissv(w, st, cu, Q, 0), 0), (kissv(w, st, cu, Q, 1), 0))
    if not done(ck, cu, 'C bnm_fc', o, st, s, [('data', f), ('weights', g)]):
        return
    s2 = o.st.fork(le(ZERO, q), lt(q, Lv))
    gl = w.I.arr_lam(st, g)
    fl = w.I.arr_lam(st, f)
    ck.eq('C bnm_fc modes', elem(w, s2, vec, q), bnm_value(q + abs_(m), m, Q, 2 * R, C, fl, gl), s2, s,
          splits=[odd(m), lt(m, ZERO)], budget=40)


def bnm_value(n_, m_, Q, rows, cols, fl, gl):
    """mode (n, m) by the transforms of length Q"""
    u = T.fresh_atom('u')
    a = from_atom(u)
    half = rows.scale(Fraction(1, 2))
    cl = ite(lt(m_, ZERO), m_ + cols, m_)
    F_ = T.mk_lam([u], ite(lt(a, half), fl(half + a, cl), ite(lt(a, rows), fl(a - half, cl), ZERO)))
    v = T.fresh_atom('u')
    b = from_atom(v)
    G = T.mk_lam([v], T.dft_(-1, [Q], F_, [b]) * gl(b))
    hh = lambda k: 4 * PI * T.inverse(Q) * T.dft_(1, [Q], G, [k])
    x = T.fresh_atom('k')
    c = from_atom(x)
    return T.ipow(-m_) * (hh(ZERO) * ynu(n_, m_, ZERO) + 2 * T.mk_sum(x, ZERO, n_ - 1, hh(c + 1) * ynu(n_, m_, c + 1)))




def spectrum(Q, rows, n_):
    """DFT of what SData computes"""
    u = T.fresh_atom('u')
    lam = T.mk_lam([u], sdata_value(from_atom(u), Q, rows, n_))
    return lambda k: T.dft_(-1, [Q], lam, [k])


def c_conv(ck):
    """the circular convolution of length Q >= rows + N is the full one"""
    w = ck.world(key='conv')
    Q = isym('Q')
    st = w.start(le(ONE, R), le(abs_(m), n), le(n, N), le(2 * abs_(m) + 1, C), le(2 * R + N, Q))
    f = data()
    ck.eq('convolution', bnm_value(n, m, Q, 2 * R, C, lambda a, b: f([a, b]), spectrum(Q, 2 * R, N)), analysis(n, m), st,
          splits=[eq(n, ZERO)], budget=60)


def fcvec_value(i_, j_, m_, n_, rows, j0, fl, vl):
    """row i, column j after the modes of order m have been added to column j0"""
    am = abs_(m_)

    def new(x):
        v = T.fresh_atom('k')
        a = from_atom(v)
        sm = T.mk_sum(v, ZERO, n_ - am, vl(a) * ynu(a + am, m_, x))
        return ite(le(x, n_), T.ipow(m_) * (fl(x, j0) + sm), fl(x, j0))
    sign = ONE - 2 * mod_(m_, TWO)
    return ite(eq(j_, j0), ite(lt(rows, 2 * i_), sign * new(rows - i_), new(i_)), fl(i_, j_))


def c_fcvec(ck):
    w, cu = summaries(ck)
    j0 = isym('j0')
    rows = 2 * R
    st = w.start(le(ONE, R), le(ZERO, N), le(abs_(m), N), le(N, R), le(ZERO, j0), lt(j0, C))
    s = csite(cu, 'fcvec_m_sc')
    f = w.array(st, 'f', [rows, C])
    y = w.array(st, 'yy', [N + 1], dtype='float64')
    Lv = N + 1 - abs_(m)
    vec = w.array(st, 'vec', [Lv])
    fl, vl = w.I.arr_lam(st, f), w.I.arr_lam(st, vec)
    o = cu.call(st, 'fcvec_m_sc', vec, iv(m), iv(N), f, iv(rows), iv(C), iv(j0), y, iv(N + 1))
    if not done(ck, cu, 'C fcvec_m_sc', o, st, s, [('modes', vec)]):
        return
    for lab, cs in (('column', [eq(j, j0)]), ('other columns', [ne(j, j0)])):
        s2 = o.st.fork(le(ZERO, i), lt(i, rows), le(ZERO, j), lt(j, C), *cs)
        jj = j0 if lab == 'column' else j
        ck.eq('C fcvec_m_sc ' + lab, elem(w, s2, f, i, jj), fcvec_value(i, jj, m, N, rows, j0, fl, vl), s2, s,
              splits=[odd(m), lt(R, i), le(rows - i, N), le(i, N)], budget=40)


def c_fc_to_sc(ck):
    w, cu = summaries(ck, 'a')
    st = w.start(*a_facts())
    s = csite(cu, 'fc_to_sc')
    f = w.I.mkarr(st, [2 * R, C], data(), 'complex128', 'input')
    nc = ncoef(N, M)
    out = w.array(st, 'out', [nc])
    o = cu.call(st, 'fc_to_sc', f, iv(2 * R), iv(C), out, iv(nc), iv(N), iv(M))
    if not done(ck, cu, 'C fc_to_sc', o, st, s, [('data', f)]):
        return
    for lab, cs, mm in (('m = 0', [], ZERO), ('m > 0', [lt(ZERO, m)], m), ('m < 0', [lt(m, ZERO)], m)):
        s2 = o.st.fork(valid(n, mm, N, M), *cs)
        p_ = s2.F.simp(pos(n, mm, N))
        ck.eq('C fc_to_sc modes, ' + lab, elem(w, s2, out, p_), s2.F.simp(analysis(n, mm)), s2, s,
              splits=[eq(n, ZERO)], hints=[(abs_(mm) - 1, N - abs_(mm))], budget=40)


def c_sc_to_fc(ck):
    w, cu = summaries(ck, 's')
    st = w.start(*s_facts())
    s = csite(cu, 'sc_to_fc')
    rows, cols = 2 * R, 2 * C
    nc = ncoef(N, M)
    a = w.array(st, 'v', [nc])
    out = w.I.mkarr(st, [rows, cols], lambda ix: ZERO, 'complex128', 'input')
    o = cu.call(st, 'sc_to_fc', out, iv(rows), iv(cols), a, iv(nc), iv(N), iv(M))
    if not done(ck, cu, 'C sc_to_fc', o, st, s, [('modes', a)]):
        return
    c = lambda n_, m_: sarr('v', pos(n_, m_, N))
    for lab, cs in (('columns m >= 0', [le(j, M)]), ('columns m < 0', [le(cols - M, j)]),
                    ('other columns', [lt(M, j), lt(j, cols - M)])):
        s2 = o.st.fork(le(ZERO, i), lt(i, rows), le(ZERO, j), lt(j, cols), *cs)
        ck.eq('C sc_to_fc ' + lab, elem(w, s2, out, i, j), synthesis(i, j, rows, cols, c), s2, s,
              splits=[eq(j, ZERO), eq(j, M), lt(R, i), eq(i, R), le(2 * R - i, N)], budget=40)


# -- call sites and the extension's argument conversion ---------------------------------
class Guarded(Kernels):
    """native kernels that fault when called outside the region in which they were analysed"""
    def need(self, I, st, cs, what):
        fault(I, st, c_not(c_and(cs)), what + ' called outside its domain')

    def n_fc_to_sc(self, I, st, args, kw):
        def go(st, args):
            v = self.typed(I, st, args, kw, [2, 1, 'int', 'int'])
            if v is not None:
                a, out, n_, m_ = v
                rows, cols = a.shape
                self.need(I, st, [eq(mod_(rows, TWO), ZERO), le(TWO, rows), le(ZERO, m_), le(m_, n_), le(2 * m_ + 1, cols),
                                  eq(out.shape[0], ncoef(n_, m_))], 'fc_to_sc')
            return Kernels.n_fc_to_sc(self, I, st, args, kw)
        return self.splitargs(I, st, args, go)

    def n_sc_to_fc(self, I, st, args, kw):
        def go(st, args):
            v = self.typed(I, st, args, kw, [2, 1, 'int', 'int'])
            if v is not None:
                out, a, n_, m_ = v
                rows, cols = out.shape
                self.need(I, st, [eq(mod_(rows, TWO), ZERO), eq(mod_(cols, TWO), ZERO), le(TWO, rows), le(ZERO, m_), le(m_, n_),
                                  le(2 * n_, rows), le(2 * m_ + 2, cols), eq(a.shape[0], ncoef(n_, m_))], 'sc_to_fc')
            return Kernels.n_sc_to_fc(self, I, st, args, kw)
        return self.splitargs(I, st, args, go)


GK = Guarded()


def calls(fn, mk, fwd):
    def run(ck):
        w = ck.world(use_cext=True, native=GK, key='guarded')
        w.I.memsites = set()
        GK.clear()
        GK.install(w.I)
        st = w.start(*(patt_facts() if fwd else size_facts()))
        st, x = mk(w, st)
        s = fn_site(w, fn)
        a, b = (N, M) if fwd else (R, C)
        forms = [('both sizes', [iv(a), iv(b)]), ('no sizes', [])]
        if ck.thorough():
            forms.append(('one size', [iv(a)]))
        for lab, args in forms:
            GK.clear()
            o = w.call(st, fn, x, *args)
            k = 0
            for s2, e, where in o.recs:
                if is_exc(e, FAULT) or is_exc(e, 'TypeError'):
                    k += 1
                    ck.never('%s, %s: %s' % (fn, lab, e), c_and(o.conds(s2)), st, s, 'native kernel %r at %s' % (e, where))
            n_ = len(GK.order)
            if not k and n_:
                ck.proved('%s, %s: %d kernel calls inside their domain' % (fn, lab, n_), s)
            elif not n_:
                ck.undecided('%s, %s: kernel calls' % (fn, lab), 'no kernel call reached', s)
    return ('%s call sites' % fn, run)


def c_wrapper(ck):
    for fn, args in (('fc_to_sc', [('array', 2), 'rows', 'cols', ('array', 1), 'rows', 'int', 'int']),
                     ('sc_to_fc', [('array', 2), 'rows', 'cols', ('array', 1), 'rows', 'int', 'int'])):
        r = wrapper_args(cint.ROOT, fn)
        s = {'function': '_wrap_' + fn, 'file': 'src/csphi_wrap.c', 'line': r.get('line', 0)}
        if r.get('why'):
            ck.undecided(fn + ' conversion', r['why'], s)
            continue
        cur = None
        for k, (want, got) in enumerate(zip(args, r['args'])):
            nm = '%s argument %d' % (fn, k + 1)
            if isinstance(want, tuple):
                cur = got.get('array')
                ok = got['kind'] == 'data' and r['checks'].get(cur, {}).get('rank') == want[1] \
                    and r['checks'][cur].get('contiguous') and r['checks'][cur].get('type') == 'complex128'
            elif want in ('rows', 'cols'):
                ok = got['kind'] == 'size' and got['array'] == cur and got['axis'] == (want == 'cols')
            else:
                ok = got['kind'] == 'int'
            if got['kind'] == '?':
                ck.undecided(nm, 'not recognised', s)
            elif ok:
                ck.proved(nm, s)
            else:
                ck.violated(nm, 'converted as %r' % (got,), s, argument=str(got), checks=str(r['checks']))
        used = [a['array'] for a in r['args'] if a['kind'] == 'data']
        if len(set(used)) == len(used):
            ck.proved(fn + ' distinct arrays', s)
        else:
            ck.violated(fn + ' distinct arrays', 'one array for two arguments', s)
    for t, why in layouts(cint.ROOT):
        if why is None:
            ck.proved('layout of ' + t)
        elif why[0] == '?':
            ck.undecided('layout of ' + t, why)
        else:
            ck.violated('layout of ' + t, why, {'function': t, 'file': 'src', 'line': 0})


# -- native side of C01 and C03 ---------------------------------------------------------
def c_input(fn, mk):
    """the array the kernel reads is unchanged"""
    def run(ck):
        ck.capture = []
        mk(ck)
        cap, ck.capture = ck.capture, None
        w, cu = cworld(ck)
        s = csite(cu, fn)
        if not cap:
            raise Skip('no call')
        o, st, keep = cap[0]
        if not o.ok:
            raise Skip('no normal completion')
        kept(ck, cu, fn, st, o.st, keep, s)
    return ('native ' + fn, run, 200)


RENAME = ('N', 'M', 'R', 'C', 'n', 'm', 'L', 'Q', 'j0')
RENAME_ARR = ('f', 'g', 'v', 'vec')


def c_history(fn, task):
    """no static data is written, or the formulas hold after a first call on other sizes and data too"""
    def run(ck):
        w, cu = cworld(ck)
        s = csite(cu, fn)
        d, fns = cu.unit.dirty(fn)
        bad = [cu.unit.bad[f] for f in fns if f in cu.unit.bad]
        if bad:
            ck.undecided('native %s: static data' % fn, 'not translated: %s' % bad, s)
            return
        if not d:
            ck.proved('native %s: writes no static data' % fn, s, 'functions %s' % ', '.join(fns))
            return
        ck.capture = []
        task(ck)
        cap, ck.capture = ck.capture, None
        if not cap or not cap[0][0].ok:
            raise Skip('first call of %s, which keeps %s, does not complete' % (fn, d))
        end = cap[0][0].st
        mp = dict((isym(a).atoms()[0], isym(a + '9')) for a in RENAME)
        for a in RENAME_ARR:
            for k in (1, 2):
                x, y = [sarr(b, *([ZERO] * k)).atoms()[0].args[0] for b in (a, a + '9')]
                mp[x] = from_atom(y)
        sb = CO.Subst(end, mp)
        base = set(w.st0.heap)
        recs = dict((i, sb.rec(r)) for i, r in end.heap.items())
        path = [T.subst(c, mp) for c in end.path]

        def before(w, *cs):
            st = w.st0.fork()
            for i, r in recs.items():
                st.heap[i] = r
            for c in path + list(cs):
                st.assume(c)
            return st
        ck.before = before
        try:
            task(Renamed(ck, 'native, second call: '))
        finally:
            ck.before = None
            w.__dict__.pop('start', None)
    return ('native ' + fn, run, 300)


class Renamed(object):
    """obligations of a task under a prefixed name"""
    def __init__(self, ck, pre):
        self.__dict__.update(_ck=ck, _pre=pre)

    def __getattr__(self, k):
        v = getattr(self._ck, k)
        if k in ('eq', 'holds', 'never', 'iff', 'raises', 'proved', 'undecided', 'violated'):
            return lambda name, *a, **kw: v(self._pre + name, *a, **kw)
        return v


LEMMAS = [('C ynunm', c_ynunm), ('C FindQ', c_nextq), ('C SData', c_sdata), ('convolution', c_conv), ('C bnm_fc', c_bnm),
          ('C fcvec_m_sc', c_fcvec)]
TOP = [('C fc_to_sc', c_fc_to_sc, 300), ('C sc_to_fc', c_sc_to_fc, 300)]
MEM = [t for t in LEMMAS if t[0] != 'convolution'] + TOP
TASKS = {
    'C16': PY + LEMMAS + TOP,
    'C14': MEM + [calls('spht', dpatt, True), calls('vspht', tdpatt, True), calls('ispht', scoefs, False),
                  calls('vispht', vcoefs, False), ('argument conversion', c_wrapper)],
    'C15': MEM,
    'C01': [c_input(*t) for t in (('bnm_fc', c_bnm), ('fcvec_m_sc', c_fcvec), ('fc_to_sc', c_fc_to_sc), ('sc_to_fc', c_sc_to_fc))],
    'C03': [c_history(f, t) for f, t in (('ynunm', c_ynunm), ('FindQ', c_nextq), ('SData', c_sdata), ('bnm_fc', c_bnm),
                                         ('fcvec_m_sc', c_fcvec), ('fc_to_sc', c_fc_to_sc), ('sc_to_fc', c_sc_to_fc))],
}
