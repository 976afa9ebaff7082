"""C01 inputs are left as they were, C02 results own their storage, C03 results
depend on the arguments only."""
from .fix import *
from .values import KINDS, OPS, DUNDER
from .kernels import pworld
from .pipe import kworld, window_facts, inv_facts
from sa import core as CO
from sa.harness import VIOLATED as CO_VIOL

QN, QM, I0, I1 = isym('qn'), isym('qm'), isym('i0'), isym('i1')
HID = ('%rng', '%out', '%fs', '%clock')


# ---------------------------------------------------------------- reachability
def ids_of(st, *vals):
    """heap records reachable from the values (classes and modules excluded)"""
    seen, todo = set(), list(vals)
    while todo:
        v = todo.pop()
        if isinstance(v, (TupleV, ExcV)):
            todo.extend(v.items if isinstance(v, TupleV) else v.args)
        elif isinstance(v, PhiV):
            todo.extend([v.a, v.b])
        elif isinstance(v, SliceV):
            todo.extend([v.start, v.stop, v.step])
        elif isinstance(v, Bound):
            todo.extend([v.fn, v.slf])
        elif isinstance(v, StaticV):
            todo.append(v.fn)
        elif isinstance(v, PropV):
            todo.extend([v.get, v.set])
        elif isinstance(v, IterV):
            todo.extend(v.parts)
        elif isinstance(v, FuncV):
            todo.extend(v.defaults)
            todo.extend(v.kwdefaults)
            todo.extend(Ref(x) for x in v.closure)
            if v.attrs is not None:
                todo.append(Ref(v.attrs))
        elif isinstance(v, ArrV):
            todo.append(Ref(v.buf))
        elif isinstance(v, (list, tuple)):
            todo.extend(v)
        elif isinstance(v, Ref):
            if v.id in seen or v.id not in st.heap:
                continue
            r = st.heap[v.id]
            if r.kind in ('module', 'class'):
                continue
            seen.add(v.id)
            todo.extend(rec_vals(r))
    return seen


def rec_vals(r):
    if isinstance(r, DictRec):
        return list(r.d.values())
    if isinstance(r, CO.PhiRec):
        return rec_vals(r.a) + rec_vals(r.b)
    if isinstance(r, ListRec):
        out = []
        for s in r.segs:
            out.extend(seg_vals(s))
        return out
    return []


def seg_vals(s):
    if s[0] == 'one':
        return [s[1]]
    out = []
    for x in s[3:]:
        for y in (x if isinstance(x, (list, tuple)) else [x]):
            if isinstance(y, tuple):
                out.extend(seg_vals(y))
    return out


def same_rec(a, b):
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, DictRec):
        return set(a.d) == set(b.d) and all(a.d[k] is b.d[k] or CO.same(a.d[k], b.d[k]) for k in a.d)
    if isinstance(a, BufRec):
        return a.content is b.content and tuple(a.shape) == tuple(b.shape)
    if isinstance(a, ListRec):
        return len(a.segs) == len(b.segs) and all(x[0] == y[0] == 'one' and CO.same(x[1], y[1]) or x is y
                                                  for x, y in zip(a.segs, b.segs))
    return False


def changed(before, after, ids):
    return [i for i in ids if i in before.heap and not same_rec(before.heap[i], after.heap.get(i))]


def module_ids(w, st, base=None):
    """mutable records reachable from the package's modules, classes and functions"""
    base = base or w.st0.heap
    out = set()
    vals = []
    for i in base:
        if i in HID or i not in st.heap:
            continue
        out.add(i)
        vals.extend(rec_vals(st.heap[i]))
    return out | ids_of(st, *vals)


# ---------------------------------------------------------------- observations
def observe(w, st, v, lab=''):
    """[(label, facts, term, state)] of everything the public interface shows of a value"""
    if isinstance(v, PhiV):
        out = []
        for g, x, t in ((v.c, v.a, '?1'), (c_not(v.c), v.b, '?2')):
            s2 = st.fork(g)
            if not s2.F.contradictory():
                out.extend(observe(w, s2, x, lab + t))
        return out
    if isinstance(v, TupleV):
        out = []
        for i, x in enumerate(v.items):
            out.extend(observe(w, st, x, '%s[%d]' % (lab, i)))
        return out
    if isinstance(v, (NumV, BoolV)):
        return [(lab, st, as_term(w, st, v))]
    if isinstance(v, ArrV):
        out = [('%s shape[%d]' % (lab, i), st, x) for i, x in enumerate(v.shape)]
        ix = [isym('i%d' % i) for i in range(len(v.shape))]
        s2 = st.fork(*[c for i, x in zip(ix, v.shape) for c in (le(ZERO, i), lt(i, x))])
        if not s2.F.contradictory():
            out.append((lab + ' elements', s2, elem(w, s2, v, *ix)))
        return out
    c = cls_of(w, st, v)
    if c in ('ScalarCoefs', 'VectorCoefs'):
        a, b = [as_term(w, st, prop(w, st, v, x)) for x in ('nmax', 'mmax')]
        out = [(lab + ' nmax', st, a), (lab + ' mmax', st, b)]
        s2 = st.fork(valid(QN, QM, a, b), *([le(ONE, QN)] if c == 'VectorCoefs' else []))
        if not s2.F.contradictory():
            m_ = mode(w, s2, v, QN, QM)
            for k, x in enumerate(m_ if isinstance(m_, list) else [m_]):
                out.append(('%s mode, component %d' % (lab, k + 1), s2, x))
        return out
    if c in ('ScalarPatternUniform', 'TransversePatternUniform'):
        out = []
        for x in ('nrows', 'ncols'):
            out.append(('%s %s' % (lab, x), st, as_term(w, st, prop(w, st, v, x))))
        return out + observe(w, st, prop(w, st, v, 'doublesphere'), lab + ' doublesphere')
    if isinstance(v, Ref) and isinstance(st.heap.get(v.id), ListRec):
        out = []
        for i, s in enumerate(st.heap[v.id].segs):
            if s[0] == 'one':
                out.extend(observe(w, st, s[1], '%s[%d]' % (lab, i)))
        return out
    return []


def rebase(s, path):
    s = s.fork()
    s.set_path(path)
    return s


def compare(ck, name, w, st1, v1, st2, v2, site, why=None):
    """the two values look the same through the public interface; st2's path
    contains all facts"""
    a = observe(w, rebase(st1, st2.path), v1)
    b = observe(w, st2, v2)
    if [x[0] for x in a] != [x[0] for x in b]:
        ck.undecided(name, 'different structure: %s, %s' % ([x[0] for x in a], [x[0] for x in b]), site)
        return
    if not a:
        ck.proved(name, site, 'nothing to observe')
    for (la, sa, ta), (lb, sb, tb) in zip(a, b):
        ck.eq(name + la, tb, ta, sb, site)


def seen_all(w, o):
    """nothing unmodelled ran, so that no effect can have been missed"""
    bad = [u for u in w.I.unknowns if not str(u).startswith('len of list')]
    return not bad, '; '.join(str(b) for b in bad)[:300]


def settled(ck, w, o, name, site, note=''):
    ok, bad = seen_all(w, o)
    if ok:
        ck.proved(name, site, note)
    else:
        ck.undecided(name, 'effects of unmodelled code: ' + bad, site)


# ---------------------------------------------------------------- operations
class Case(object):
    """one public operation on symbolic arguments"""
    def __init__(self, name, site, facts, build, call, world='plain', props=('C01', 'C02', 'C03'), limit=None, result=True,
                 small=True):
        self.name, self.site, self.facts, self.build, self.call = name, site, facts, build, call
        self.kind, self.props, self.limit, self.result, self.small = world, props, limit, result, small

    def w(self, ck):
        if self.kind == 'plain':
            return ck.world()
        if self.kind == 'parts':
            return pworld(ck)
        w = kworld(ck, self.kind == 'native')
        return w

    def start(self, ck, tag=''):
        w = self.w(ck)
        st = w.start(*self.facts)
        st, args = self.build(w, st, tag)
        return w, st, args


def c01(case):
    def run(ck):
        w, st, args = case.start(ck)
        s = fn_site(w, case.site)
        ids = [ids_of(st, v) for _, v in args]
        o = case.call(w, st, [v for _, v in args])
        ends = ([('', o.st)] if o.ok else []) + [(' after %s' % e, s2) for s2, e, _ in o.recs]
        if not ends:
            raise Skip('no outcome')
        for lab, s2 in ends:
            for (nm, v), idv in zip(args, ids):
                name = '%s: %s unchanged%s' % (case.name, nm, lab)
                ch = changed(st, s2, idv)
                if not ch:
                    settled(ck, w, o, name, s, '%d reachable records untouched' % len(idv))
                    continue
                if s2.F.contradictory():
                    continue
                compare(ck, name + ':', w, st, v, s2, v, s)
    return (case.name, run, case.limit)


def pokes(w, st, v):
    """[(label, fn(state) -> state)] public ways to change a value in place"""
    if isinstance(v, PhiV):
        return [(la, f) for x in (v.a, v.b) for la, f in pokes(w, st, x)][:4]
    if isinstance(v, TupleV):
        return [('%s of part %d' % (la, i), f) for i, x in enumerate(v.items) for la, f in pokes(w, st, x)]
    if isinstance(v, ArrV):
        ix = [isym('w%d' % i) for i in range(len(v.shape))]

        def f(s):
            s = s.fork(*[c for i, x in zip(ix, v.shape) for c in (le(ZERO, i), lt(i, x))])
            w.I.setitem(s, v, TupleV([iv(i) for i in ix]), cnum('poke') if v.dtype == 'complex128' else cnum('poker', 'real'))
            return s
        return [('writing an element', f)]
    c = cls_of(w, st, v)
    if c in ('ScalarCoefs', 'VectorCoefs'):
        def g(s):
            N_, M_ = [as_term(w, s, prop(w, s, v, x)) for x in ('nmax', 'mmax')]
            a, b = isym('w0'), isym('w1')
            s = s.fork(valid(a, b, N_, M_), *([le(ONE, a)] if c == 'VectorCoefs' else []))
            o = w.setitem(s, v, tup(a, b), cnum('poke') if c == 'ScalarCoefs' else TupleV([cnum('poke'), cnum('poke2')]))
            if not o.ok:
                raise Skip('assignment fails')
            return o.st
        return [('assigning a mode', g)]
    if c in ('ScalarPatternUniform', 'TransversePatternUniform'):
        d = prop(w, st, v, 'doublesphere')
        return pokes(w, st, d)
    return []


def c02(case):
    def run(ck):
        w, st, args = case.start(ck)
        s = fn_site(w, case.site)
        o = case.call(w, st, [v for _, v in args])
        if not o.ok:
            raise Skip('no normal completion')
        res = ids_of(o.st, o.val)
        mod = module_ids(w, o.st, base=w.st0.heap)
        name = case.name
        for nm, v in args:
            a = ids_of(o.st, v) | ids_of(st, v)
            if not (res & a):
                settled(ck, w, o, '%s: result and %s have separate storage' % (name, nm), s, '%d and %d records' % (len(res), len(a)))
                continue
            for la, f in pokes(w, o.st, o.val):
                s2 = f(o.st)
                if not s2.F.contradictory():
                    compare(ck, '%s: %s the result leaves %s:' % (name, la, nm), w, o.st, v, s2, v, s)
            for la, f in pokes(w, o.st, v):
                s2 = f(o.st)
                if not s2.F.contradictory():
                    compare(ck, '%s: %s %s leaves the result:' % (name, la, nm), w, o.st, o.val, s2, o.val, s)
        if not (res & mod):
            settled(ck, w, o, name + ': two results have separate storage', s, '%d result records, none reachable from a module' % len(res))
        else:
            for la, f in pokes(w, o.st, o.val):
                s2 = f(o.st)
                o2 = case.call(w, s2, [v for _, v in args])
                if o2.ok and not o2.st.F.contradictory():
                    compare(ck, '%s: %s a result leaves the next result:' % (name, la), w, o.st, o.val, o2.st, o2.val, s)
                o1 = case.call(w, o.st, [v for _, v in args])
                if o1.ok:
                    s3 = f(o1.st)
                    if not s3.F.contradictory():
                        compare(ck, '%s: %s a result leaves a later one:' % (name, la), w, o1.st, o1.val, s3, o1.val, s)
        parts_separate(ck, name, w, o.st, o.val, s)
    return (case.name, run, case.limit)


def parts_separate(ck, name, w, st, v, s):
    """the components of a result do not share storage"""
    c = cls_of(w, st, v) if not isinstance(v, PhiV) else None
    if c == 'VectorCoefs':
        a, b = [as_term(w, st, prop(w, st, v, x)) for x in ('nmax', 'mmax')]
        s2 = st.fork(valid(QN, QM, a, b), le(ONE, QN))
        if s2.F.contradictory():
            return
        o = w.setitem(s2, v, tup(QN, QM), TupleV([cnum('poke'), cnum('poke2')]))
        if o.ok:
            for k, x in enumerate(mode(w, o.st, v, QN, QM)):
                ck.eq('%s: component %d after assigning both' % (name, k + 1), x, cnum(['poke', 'poke2'][k]).t, o.st, s)
        return
    if c == 'TransversePatternUniform':
        d = prop(w, st, v, 'doublesphere')
    elif isinstance(v, TupleV):
        d = v
    else:
        return
    if not isinstance(d, TupleV):
        return
    for i, x in enumerate(d.items):
        for j, y in enumerate(d.items[:i]):
            if not (ids_of(st, x) & ids_of(st, y)):
                ck.proved('%s: components %d and %d have separate storage' % (name, j, i), s)
                continue
            for la, f in pokes(w, st, x):
                s2 = f(st)
                if not s2.F.contradictory():
                    compare(ck, '%s: %s in component %d leaves component %d:' % (name, la, i, j), w, st, y, s2, y, s)


def c03(case):
    def run(ck):
        w, st, args = case.start(ck)
        s = fn_site(w, case.site)
        base = set(w.st0.heap)
        o = case.call(w, st, [v for _, v in args])
        if not o.ok and not o.recs:
            raise Skip('no outcome')
        ends = ([o.st] if o.ok else []) + [r[0] for r in o.recs]
        state = [i for i in base if i != '%out']
        argids = ids_of(st, *[v for _, v in args])
        dirty = set(i for e in ends for i in changed(st, e, state))
        darg = set(i for e in ends for i in changed(st, e, argids))
        name = case.name
        for h in ('%rng', '%clock'):
            if h in dirty and case.result and o.ok:
                # a second call with the same arguments gives the same result
                o2 = case.call(w, o.st, [v for _, v in args])
                if o2.ok:
                    compare(ck, name + ': same result when called again:', w, o.st, o.val, o2.st, o2.val, s)
        dirty -= set(HID)
        if not dirty:
            settled(ck, w, o, name + ': leaves no state behind in the package', s, '%d records of modules, classes and defaults' % len(state))
        elif case.result:
            # another call before must not matter
            sb = other(case, w, st)
            if sb is not None and not sb.F.contradictory():
                o2 = case.call(w, sb, [v for _, v in args])
                o1 = case.call(w, rebase(st, sb.path), [v for _, v in args])
                results(ck, name + ': an earlier call with other arguments does not matter', w, o1, o2, s)
            o2 = case.call(w, o.st, [v for _, v in args]) if o.ok else None
            if o2 is not None:
                results(ck, name + ': an earlier call with the same arguments does not matter', w, o, o2, s)
        if case.inplace:
            return
        if not darg:
            settled(ck, w, o, name + ': leaves no state behind in its arguments', s, '%d records' % len(argids))
        elif o.ok:
            histories(ck, case, w, st, args, o, s)
    return (case.name, run, case.limit)


def results(ck, name, w, o1, o2, s):
    """both calls end the same way"""
    if o1.ok:
        for s2, e, where in o2.recs:
            c = c_and(o2.conds(s2))
            b = s2.fork(*o1.st.path)
            if not b.F.contradictory():
                r = ck.never('%s: raises %s' % (name, e), c, b, s, 'raised at %s after the earlier call' % (where,))
                if r == CO_VIOL:
                    return
    if not o1.ok or not o2.ok:
        ck.undecided(name, 'no normal completion', s)
        return
    st = o2.st.fork(*o1.st.path)
    if st.F.contradictory():
        ck.proved(name, s, 'vacuous')
        return
    compare(ck, name + ':', w, o1.st, o1.val, st, o2.val, s)


def other(case, w, st):
    """state after the operation has been used on different data of different sizes"""
    mp = dict((isym(a).atoms()[0], isym(b)) for a, b in
              (('N', 'N9'), ('M', 'M9'), ('R', 'R9'), ('C', 'C9'), ('N2', 'N8'), ('M2', 'M8'), ('R2', 'R8'), ('C2', 'C8'),
               ('n', 'n9'), ('m', 'm9'), ('k', 'k9'), ('L', 'L9'), ('Q', 'Q9')))
    mp[cnum('x').t.atoms()[0]] = cnum('x9').t
    s1, args = case.build(w, st.fork(), 'z')
    o = case.call(w, s1, [v for _, v in args])
    if not o.ok:
        return None
    sb = CO.Subst(o.st, mp)
    out = CO.State(path=st.path)
    for i, r in o.st.heap.items():
        out.heap[i] = r if i in st.heap and same_rec(st.heap[i], r) else sb.rec(r)
    for c in o.st.path:
        out.assume(T.subst(c, mp))
    return out


def histories(ck, case, w, st, args, o, s):
    """the operation leaves something in its arguments (a cache, say): operations
    after a change of the argument give what they give without it"""
    for nm, v in args:
        if not changed(st, o.st, ids_of(st, v)):
            continue
        for la, f in pokes(w, st, v):
            s1 = f(st)
            s2 = f(o.st)
            if s2.F.contradictory():
                continue
            o1 = case.call(w, s1, [x for _, x in args])
            o2 = case.call(w, s2, [x for _, x in args])
            results(ck, '%s: same after %s %s as when not called before' % (case.name, la, nm), w, o1, o2, s)
            compare(ck, '%s: %s looks the same after %s it:' % (case.name, nm, la), w, s1, v, s2, v, s)
            k = cls_of(w, st, v)
            for c2 in CASES:
                if c2 is case or c2.kind != 'plain' or not c2.small or getattr(c2, 'on', None) != k:
                    continue
                a1 = c2.call(w, s1, [v])
                a2 = c2.call(w, s2, [v])
                if a1.ok and a2.ok and observable(w, a1):
                    results(ck, '%s, then %s %s: %s the same' % (case.name, la, nm, c2.name), w, a1, a2, s)


def observable(w, o):
    try:
        return bool(observe(w, o.st, o.val))
    except Skip:
        return False


# ---------------------------------------------------------------- the table
CASES = []


def case(name, site, facts, build, call, **kw):
    on = kw.pop('on', None)
    inplace = kw.pop('inplace', False)
    c = Case(name, site, facts, build, call, **kw)
    c.on = on
    c.inplace = inplace
    CASES.append(c)
    return c


def one(mk, *names):
    def build(w, st, tag=''):
        st, x = mk(w, st, *[n_ + tag for n_ in names])
        return st, [('the argument', x)]
    return build


MK = {'ScalarCoefs': (scoefs, ['c'], size_facts()), 'VectorCoefs': (vcoefs, ['v1', 'v2'], size_facts()),
      'ScalarPatternUniform': (dpatt, ['p'], patt_facts()), 'TransversePatternUniform': (tdpatt, ['tp', 'pp'], patt_facts())}


def unary(name, cls, site, call, **kw):
    mk, names, facts = MK[cls]
    case(name, site, facts + list(kw.pop('facts', [])), one(mk, *names), lambda w, st, a: call(w, st, a[0]), on=cls, **kw)


def fn(f, *args):
    return lambda w, st, x: w.call(st, f, x, *args)


def attr(nm):
    return lambda w, st, x: w.run(st, lambda s: w.I.getattr(s, x, nm))


def meth(nm, *args):
    return lambda w, st, x: w.meth(st, x, nm, *args)


NOVIEW = ('C01', 'C03')

for K in KINDS:
    for op, sgn, _ in OPS:
        def b2(w, st, tag='', K=K):
            st, a = K.make(w, st, 'a' + tag)
            st, b = K.make(w, st, 'b' + tag, True)
            return st, [('the left operand', a), ('the right operand', b)]
        st_ = '%s.__%s__' % (K.name, DUNDER[op])
        case('%s %s %s' % (K.name, sgn, K.name), st_, K.facts() + K.facts(True), b2,
             lambda w, st, a, op=op: w.binop(st, op, a[0], a[1]), small=False)
        unary('%s %s number' % (K.name, sgn), K.name, st_, lambda w, st, x, op=op: w.binop(st, op, x, cnum('x')))
        if not (K.name == 'VectorCoefs' and op == 'Div'):
            unary('number %s %s' % (sgn, K.name), K.name, st_, lambda w, st, x, op=op: w.binop(st, op, cnum('x'), x))

for cls in ('ScalarCoefs', 'VectorCoefs'):
    unary('%s.copy' % cls, cls, cls + '.copy', meth('copy'))
    for f in ('L2_coef', 'LInf_coef'):
        unary('%s(%s)' % (f, cls), cls, f, fn(f), props=NOVIEW)
    unary('%s[n, m]' % cls, cls, cls + '.__getitem__', lambda w, st, x: w.getitem(st, x, tup(n, m)), props=NOVIEW)
    unary('%s[:, m]' % cls, cls, cls + '.__getitem__', lambda w, st, x: w.getitem(st, x, TupleV([ALL, iv(m)])), props=NOVIEW)
    unary('%s[n, :]' % cls, cls, cls + '.__getitem__', lambda w, st, x: w.getitem(st, x, TupleV([iv(n), ALL])), props=NOVIEW)
    unary('%s[0:k, :]' % cls, cls, cls + '.__getitem__',
          lambda w, st, x: w.getitem(st, x, TupleV([SliceV(iv(0), iv(k), NONE), ALL])))
    unary('repr(%s)' % cls, cls, cls + '.__repr__', lambda w, st, x: w.run(st, lambda s: w.I.call(s, w.I.getattr(s, x, '__repr__'), [], {})),
          props=NOVIEW)
    unary('%s.size' % cls, cls, cls + '.size', attr('size'), props=NOVIEW)
    unary('mag(%s)' % cls, cls, 'mag', fn('mag'))
    unary('mag2(%s)' % cls, cls, 'mag2', fn('mag2'))
unary('abs(ScalarCoefs)', 'ScalarCoefs', 'abs', fn('abs'))
unary('power', 'ScalarCoefs', 'ScalarCoefs.power', meth('power'), props=NOVIEW)
unary('angular_power_spectrum', 'ScalarCoefs', 'ScalarCoefs.angular_power_spectrum', meth('angular_power_spectrum'))
unary('pretty_coefs', 'ScalarCoefs', 'pretty_coefs', fn('pretty_coefs'), props=NOVIEW, facts=[le(TWO, N)])
for f, cls in (('save_coef', 'ScalarCoefs'), ('save_patt', 'ScalarPatternUniform')):
    unary('file.%s' % f, cls, 'file.' + f, lambda w, st, x, f=f: w.call(st, 'file.' + f, x, StrV('one.txt')), props=('C01',))
for cls in ('ScalarPatternUniform', 'TransversePatternUniform'):
    for f in ('L2_patt', 'LInf_patt'):
        unary('%s(%s)' % (f, cls), cls, f, fn(f), props=NOVIEW)
    for f in ('single_val', 'is_symmetric', 'shape', 'nrows', 'ncols', 'array', 'doublesphere'):
        unary('%s.%s' % (cls, f), cls, '%s.%s' % (cls, f), attr(f), props=NOVIEW)
    unary('repr(%s)' % cls, cls, cls + '.__repr__', lambda w, st, x: w.run(st, lambda s: w.I.call(s, w.I.getattr(s, x, '__repr__'), [], {})),
          props=NOVIEW)
    unary('array(%s)' % cls, cls, 'array', fn('array'), props=NOVIEW)
    unary('mag(%s)' % cls, cls, 'mag', fn('mag'))
    unary('mag2(%s)' % cls, cls, 'mag2', fn('mag2'))
unary('abs(ScalarPatternUniform)', 'ScalarPatternUniform', 'abs', fn('abs'))
unary('ScalarPatternUniform.cdata', 'ScalarPatternUniform', 'ScalarPatternUniform.cdata', attr('cdata'), props=NOVIEW)
for f in ('theta', 'phi', 'theta_double', 'phi_double'):
    unary('TransversePatternUniform.' + f, 'TransversePatternUniform', 'TransversePatternUniform.' + f, attr(f), props=NOVIEW)


def two(mk, a, b):
    def build(w, st, tag=''):
        st, x = mk(w, st, a + tag)
        st, y = mk(w, st, b + tag)
        return st, [('the first argument', x), ('the second argument', y)]
    return build


case('compare_relative', 'compare_relative', size_facts(), two(scoefs, 'c', 'd'),
     lambda w, st, a: w.call(st, 'compare_relative', *a), props=NOVIEW, small=False)

for cext, nm in ((False, 'pure'), (True, 'native')):
    for f, cls in (('spht', 'ScalarPatternUniform'), ('vspht', 'TransversePatternUniform')):
        unary('%s (%s)' % (f, nm), cls, f, fn(f, iv(N), iv(M)), world=nm, small=False)
        unary('%s without sizes (%s)' % (f, nm), cls, f, fn(f), world=nm, small=False)
    for f, cls in (('ispht', 'ScalarCoefs'), ('vispht', 'VectorCoefs')):
        unary('%s (%s)' % (f, nm), cls, f, fn(f, iv(R), iv(C)), world=nm, small=False)
        unary('%s without sizes (%s)' % (f, nm), cls, f, fn(f), world=nm, small=False)
SLOW = [le(ZERO, M), le(M, N), lt(N, R - 1), le(2 * M + 2, C)]
unary('spht_slow', 'ScalarPatternUniform', 'spht_slow', fn('spht_slow', iv(N), iv(M)), world='pure', facts=SLOW, small=False)
unary('ispht_slow', 'ScalarCoefs', 'ispht_slow', fn('ispht_slow', iv(R), iv(C)), world='pure', facts=inv_facts(), small=False)


# arrays handed to the package
def arrs(*specs):
    def build(w, st, tag=''):
        return st, [('array ' + nm, w.array(st, nm + tag, sh, dt)) for nm, sh, dt in specs]
    return build


L = isym('L')
CX = 'complex128'
case('continue_sphere', 'continue_sphere', patt_facts(), arrs(('p', [R, C], CX)),
     lambda w, st, a: w.call(st, 'continue_sphere', a[0], iv(1)))
case('continue_sphere, odd', 'continue_sphere', patt_facts(), arrs(('p', [R, C], CX)),
     lambda w, st, a: w.call(st, 'continue_sphere', a[0], iv(-1)))
case('double_sphere', 'double_sphere', patt_facts(), arrs(('p', [R, C], CX)),
     lambda w, st, a: w.call(st, 'double_sphere', a[0], iv(1)))
case('double_sphere, odd', 'double_sphere', patt_facts(), arrs(('p', [R, C], CX)),
     lambda w, st, a: w.call(st, 'double_sphere', a[0], iv(-1)))
case('ScalarPatternUniform', 'ScalarPatternUniform.__init__', patt_facts(), arrs(('p', [R, C], CX)),
     lambda w, st, a: w.call(st, 'ScalarPatternUniform', a[0]))
case('TransversePatternUniform', 'TransversePatternUniform.__init__', patt_facts(), arrs(('tp', [R, C], CX), ('pp', [R, C], CX)),
     lambda w, st, a: w.call(st, 'TransversePatternUniform', *a))
case('ScalarCoefs', 'ScalarCoefs.__init__', [le(ONE, L)], arrs(('c', [L], CX)),
     lambda w, st, a: w.call(st, 'ScalarCoefs', a[0], iv(N), iv(M)), props=NOVIEW)
case('VectorCoefs', 'VectorCoefs.__init__', [le(ONE, L)], arrs(('v1', [L], CX), ('v2', [L], CX)),
     lambda w, st, a: w.call(st, 'VectorCoefs', a[0], a[1], iv(N), iv(M)), props=NOVIEW)


# kernels and operators, analysed themselves (the transforms above use what they compute)
Q_ = isym('Q')
KARR = ('C01', 'C03')
B2 = [le(ONE, R), le(ONE, C)]


def kcase(name, facts, specs, *args, **kw):
    def call(w, st, a):
        it = iter(a)
        return w.call(st, 'pysphi.' + name, *[next(it) if x is None else x for x in args])
    case('pysphi.' + name, 'pysphi.' + name, facts, arrs(*specs), call, props=kw.pop('props', KARR), small=False, **kw)


kcase('ynnm', [le(ZERO, n)], [], iv(n), iv(m))
kcase('ynunm', [le(ZERO, n), lt(n, L)], [], iv(n), iv(m), iv(L))
kcase('smallest_prime_factor', [le(ONE, Q_)], [], iv(Q_))
kcase('s_data', [le(ONE, R), le(ZERO, N), le(2 * R + N, Q_)], [], iv(2 * R), iv(N), iv(Q_))
kcase('hkm_fc', B2 + [le(ZERO, N), le(2 * R + N, Q_), le(2 * abs_(m) + 1, C)], [('f', [2 * R, C], CX), ('g', [Q_], CX)],
      None, iv(N), iv(m), None)
kcase('bnm_vec_fc', B2 + [le(abs_(m), N), le(2 * abs_(m) + 1, C)], [('f', [2 * R, C], CX)], None, iv(N), iv(m), world='parts')
kcase('fc_to_sc', B2 + [le(ZERO, M), le(M, N), le(2 * M + 1, C)], [('f', [2 * R, C], CX)], None, iv(N), iv(M), world='parts')
kcase('mindx', [le(abs_(m), M), le(M, N)], [], iv(m), iv(N), iv(M))
kcase('fcvec_m_sc', [le(ONE, R), le(abs_(m), N), le(N, R)], [('v', [N + 1 - abs_(m)], CX)], None, iv(m), iv(N), iv(2 * R), world='parts')
kcase('sc_to_fc', [le(ONE, R), le(ZERO, M), le(M, N), le(N, R), le(M + 1, C)], [('v', [ncoef(N, M)], CX)], None, iv(N), iv(M),
      iv(2 * R), iv(2 * C), world='parts')


for f_ in ('sbessely', 'sbesselj', 'sbesselh1', 'sbesselh2'):
    case('sbessel.' + f_, 'sbessel.' + f_, [le(ONE, L), ne(cnum('x', 'real').t, ZERO)], arrs(),
         lambda w, st, a, f_=f_: w.call(st, 'sbessel.' + f_, cnum('x', 'real'), iv(L)), props=('C02', 'C03'), small=False)


def ocase(name, nargs=1, low=1):
    def call(w, st, a):
        o = w.call(st, 'ops.' + name, *a)
        if o.ok:
            o.val = TupleV(list(a) + ([o.val] if not isinstance(o.val, NoneT) else []))
        return o
    case('ops.' + name, 'ops.' + name, [le(num(low), R), le(ONE, C)], arrs(*[('fg'[k], [2 * R, 2 * C], CX) for k in range(nargs)]),
         call, props=('C03',), small=False, inplace=True)


for nm_, k_, lo_ in (('fix_even_row_data_fc', 1, 1), ('sin_fc', 1, 2), ('divsin_fc', 1, 2), ('dtheta_fc', 1, 1), ('dphi_fc', 1, 1),
                     ('sinLdot_fc', 2, 2), ('L_fc', 1, 2)):
    ocase(nm_, k_, lo_)


def with_array(name, cls, shape, site, call, props):
    mk, names, facts = MK[cls]

    def build(w, st, tag=''):
        st, x = mk(w, st, *[n_ + tag for n_ in names])
        return st, [('array z', w.array(st, 'z' + tag, shape)), ('the object', x)]
    return Case(name, site, facts + [le(ZERO, L)], build, call, props=props, small=False)


ASSIGN = [with_array('c[:, m] = z', 'ScalarCoefs', [L], 'ScalarCoefs.__setitem__',
                     lambda w, st, a: w.setitem(st, a[1], TupleV([ALL, iv(m)]), a[0]), ('C01',)),
          with_array('c[n, :] = z', 'ScalarCoefs', [L], 'ScalarCoefs.__setitem__',
                     lambda w, st, a: w.setitem(st, a[1], TupleV([iv(n), ALL]), a[0]), ('C01',)),
          with_array('c.window(z)', 'ScalarCoefs', [L], 'ScalarCoefs.window',
                     lambda w, st, a: w.meth(st, a[1], 'window', a[0]), ('C01',))]


def c01_assign(cs):
    """the array is unchanged by the assignment, and a later assignment or change
    of the array does not travel between the two"""
    def run(ck):
        w, st, args = cs.start(ck)
        s = fn_site(w, cs.site)
        z, x = args[0][1], args[1][1]
        o = cs.call(w, st, [z, x])
        ends = ([('', o.st)] if o.ok else []) + [(' after %s' % e, s2) for s2, e, _ in o.recs]
        for lab, s2 in ends:
            name = '%s: z unchanged%s' % (cs.name, lab)
            if not changed(st, s2, ids_of(st, z)):
                ck.proved(name, s)
            elif not s2.F.contradictory():
                compare(ck, name + ':', w, st, z, s2, z, s)
        if ck.prop == 'C01' and o.ok:
            if not (ids_of(o.st, z) & ids_of(o.st, x)):
                ck.proved(cs.name + ': the values are copied', s)
            else:
                for la, f in pokes(w, o.st, z):
                    s2 = f(o.st)
                    if not s2.F.contradictory():
                        compare(ck, '%s: %s z leaves the object:' % (cs.name, la), w, o.st, x, s2, x, s)
    return (cs.name, run)


# factories: no arguments, results of two calls are separate
def none(w, st, tag=''):
    return st, []


for f, facts in (('zeros_coefs', size_facts()), ('ones_coefs', size_facts()), ('random_coefs', size_facts()),
                 ('zeros_patt_uniform', patt_facts()), ('ones_patt_uniform', patt_facts()), ('random_patt_uniform', patt_facts())):
    for t in ('scalar', 'vector'):
        pr = ('C02',) if f.startswith('random') else ('C02', 'C03')
        case('%s, %s' % (f, t), f, facts, none,
             lambda w, st, a, f=f, t=t: w.call(st, f, iv(N if 'coefs' in f else R), iv(M if 'coefs' in f else C),
                                               **{'coef_type' if 'coefs' in f else 'patt_type': w.get(st, t)}),
             props=pr, small=False)
case('sph_harmonic_tp', 'sph_harmonic_tp', [le(TWO, R), le(TWO, C), le(abs_(m), n)], none,
     lambda w, st, a: w.call(st, 'sph_harmonic_tp', iv(R), iv(C), iv(n), iv(m)), props=('C02', 'C03'), small=False)

TASKS = {
    'C01': [c01(c) for c in CASES if 'C01' in c.props] + [c01_assign(c) for c in ASSIGN],
    'C02': [c02(c) for c in CASES if 'C02' in c.props],
    'C03': [c03(c) for c in CASES if 'C03' in c.props],
}
from . import native as _n
TASKS['C01'] = _n.TASKS['C01'] + TASKS['C01']
TASKS['C03'] = _n.TASKS['C03'] + TASKS['C03']
