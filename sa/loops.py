"""Loop summarisation: every loop body is analysed with symbolic values for
what it changes, the change is solved in closed form over the iteration
counter and the body is analysed once more at a generic iteration."""
from .core import *
from . import terms as T
from .facts import TOP

HavocV = None     # set by pyint

MAXUNROLL = 24


def trip_(n, i, E, F):
    """least k >= 0 with k >= n or E(k).  n Num or None.  F: facts at entry"""
    iv = from_atom(i)
    if n is not None:
        Fi = F.add(le(ZERO, iv), lt(iv, n))
    else:
        Fi = F.add(le(ZERO, iv))
    E = Fi.reduce(E)
    return _trip(n, i, E, F, Fi)


def _min(a, b, F):
    if a is None:
        return b
    if b is None:
        return a
    c = F.reduce(le(a, b))
    return ite(c, a, b)


def _trip(n, i, E, F, Fi):
    iv = from_atom(i)
    if E.k == 'F':
        return n
    if E.k == 'T':
        if n is None:
            return ZERO
        return F.simp(ite(le(ZERO, n), ZERO, n)) if F.decide(le(ZERO, n)) is not True else ZERO
    if i not in cond_syms(E):
        r = n if n is not None else from_atom(mk_atom('trip', (NONEARG, mk_lam([i], E)), 'int'))
        z = ZERO if n is None or F.decide(le(ZERO, n)) is True else ite(le(ZERO, n), ZERO, n)
        return ite(E, z, r)
    if E.k == 'or':
        fr = [x for x in E.a if i not in cond_syms(x)]
        dp = [x for x in E.a if i in cond_syms(x)]
        if fr:
            c = c_or(fr)
            z = ZERO if n is None or F.decide(le(ZERO, n)) is True else ite(le(ZERO, n), ZERO, n)
            return ite(c, z, _trip(n, i, c_or(dp), F, Fi))
        parts = [_solve_trip(n, i, x, F, Fi) for x in dp]
        if all(p is not None for p in parts):
            r = parts[0]
            for p in parts[1:]:
                r = _min(r, p, F)
            return r
    if E.k == 'and':
        fr = [x for x in E.a if i not in cond_syms(x)]
        dp = [x for x in E.a if i in cond_syms(x)]
        if fr and n is not None:
            return ite(c_and(fr), _trip(n, i, c_and(dp), F, Fi), n)
    r = _solve_trip(n, i, E, F, Fi)
    if r is not None:
        return r
    return from_atom(mk_atom('trip', (n if n is not None else NONEARG, mk_lam([i], E)), 'int'))


NONEARG = num(-1)


def _solve_trip(n, i, E, F, Fi):
    iv = from_atom(i)
    if E.k == 'eq' and n is not None:
        s = solve_lin(E.a, i)
        if s is not None:
            e, side = s
            c = F.reduce(c_and([side, le(ZERO, e), lt(e, n)]))
            return ite(c, e, n)
    if E.k == 'le':
        a = lin_coef(E.a, i)
        if a:
            b = E.a - iv.scale(a)          # a*i + b <= 0 exits
            den = 1
            from math import gcd
            for c in list(E.a.t.values()):
                den = den * c.denominator // gcd(den, c.denominator)
            a2, b2 = a * den, b.scale(den)
            if b2.sort != 'int':
                return None
            a2 = int(a2)
            if a2 < 0:
                # exits when i >= b/(-a): first = max(0, ceil(b2/-a2))
                k = -a2
                e = T.fdiv(b2 + (k - 1), num(k)) if k != 1 else b2
                r = F.decide(le(ZERO, b2))
                if r is True:
                    x = e
                elif r is False:
                    x = ZERO
                else:
                    x = ite(le(ZERO, b2), e, ZERO)
                x = F.simp(x)
                if n is None:
                    return x
                return _min(x, n, F)
            if a2 > 0 and n is not None:
                # true from the start or never
                return ite(F.reduce(le(b2, ZERO)), ZERO, n)
    return None


class LoopMixin(object):

    # ------------------------------------------------------------ iteration protocol
    def indexable(self, st, it):
        """(n, f(st, i) -> Val) for uniformly indexed iterables"""
        if isinstance(it, RangeV):
            n = self.range_len(st, it)
            if n is None:
                return None
            return n, lambda q, i: NumV(q.F.simp(it.lo + it.step * i), 'int')
        if isinstance(it, ArrV) and it.shape:
            return it.shape[0], lambda q, i: self.arr_getitem(q, it, NumV(i, 'int'))
        if isinstance(it, Ref):
            r = st.get(it.id)
            if r.kind == 'list' and isinstance(r, ListRec):
                n = self.list_len(st, it)
                if n is not None and len(r.segs) == 1 and r.segs[0][0] == 'rep' and len(r.segs[0][3]) == 1 \
                        and r.segs[0][3][0][0] == 'one':
                    from .pyint import self_subst_seg
                    s = r.segs[0]
                    return n, lambda q, i: self_subst_seg(q, s[3][0], {s[2]: i})[1]
                if n is not None and r.segs and n.int_const() is not None:
                    return n, lambda q, i: self.seg_pick(q, r.segs, i)
            return None
        if isinstance(it, TupleV):
            return num(len(it.items)), lambda q, i: self.getitem(q, it, NumV(i, 'int'))
        if isinstance(it, IterV):
            if it.kind == 'enumerate':
                x = self.indexable(st, it.parts[0])
                if x is None:
                    return None
                s0 = it.extra or ZERO
                return x[0], lambda q, i: TupleV([NumV(s0 + i, 'int'), x[1](q, i)])
            if it.kind == 'zip':
                xs = [self.indexable(st, p) for p in it.parts]
                if any(x is None for x in xs) or not xs:
                    return None
                n = xs[0][0]
                for x in xs[1:]:
                    n = _min(n, x[0], st.F)
                return n, lambda q, i: TupleV([x[1](q, i) for x in xs])
            if it.kind == 'reversed':
                x = self.indexable(st, it.parts[0])
                if x is None:
                    return None
                return x[0], lambda q, i: x[1](q, x[0] - 1 - i)
            if it.kind == 'map':
                x = self.indexable(st, it.parts[1])
                if x is None:
                    return None
                return x[0], lambda q, i: self.call(q, it.parts[0], [x[1](q, i)], {})
        return None

    def iterate(self, st, it, body, ctx, orelse):
        if isinstance(it, (NoneT, NumV, BoolV, FuncV)):
            self.do_raise(st, ExcV('TypeError', [StrV('object is not iterable')]))
        if isinstance(it, Ref) and st.get(it.id).kind == 'obj':
            o = it
            m = self.find_attr(st, st.get(o.id).cls, '__iter__')
            if m is not None:
                return self.iterate(st, self.call(st, Bound(m, o), [], {}), body, ctx, orelse)
            if self.find_attr(st, st.get(o.id).cls, '__getitem__') is None:
                self.do_raise(st, ExcV('TypeError', [StrV('object is not iterable')]))
        xs = self.const_items(st, it)
        if xs is not None and len(xs) <= MAXUNROLL:
            return self.unrolled(st, xs, body, ctx, orelse)
        r = self.indexable(st, it)
        if r is not None:
            n, f = r
            n = self.clip(st, n)
            self.run_loop(st, n, lambda q, i: body(q, f(q, i)), ctx, orelse=orelse)
            return
        # sequences of segments
        start = None
        src = it
        if isinstance(it, IterV) and it.kind == 'enumerate':
            src = it.parts[0]
            start = it.extra or ZERO
        if isinstance(src, FileV):
            src = self.call_method(st, 'readlines', src, [], {})
        if isinstance(src, Ref) and isinstance(st.get(src.id), ListRec) and st.get(src.id).kind == 'list' \
                and not any(s[0] in ('unk', 'mu') for s in st.get(src.id).segs):
            segs = list(st.get(src.id).segs)
            cnt = None
            if start is not None:
                cnt = st.new('frame', DictRec('frame', {'k': NumV(start, 'int')}))

            def item(q, v):
                if cnt is not None:
                    k = q.get(cnt).d['k']
                    q.mut(cnt).d['k'] = NumV(k.t + 1, 'int')
                    v = TupleV([k, v])
                body(q, v)
            self.seg_loop(st, segs, item, ctx)
            if orelse:
                self.exec_block(st, orelse, ctx)
            return
        # unknown iterable
        n = unk('iteration count', 'int')
        self.unknown('iteration over unknown')
        st.assume(le(ZERO, n))
        self.run_loop(st, n, lambda q, i: body(q, UnkV('unknown element')), ctx, orelse=orelse)

    def seg_loop(self, st, segs, item, ctx):
        from .pyint import self_subst_seg
        for s in segs:
            if s[0] == 'one':
                self.unrolled(st, [s[1]], item, ctx, [])
            else:
                n = self.clip(st, s[1])
                self.run_loop(st, n, lambda q, i, s=s: self.seg_loop(
                    q, [self_subst_seg(q, x, {s[2]: i}) for x in s[3]], item, ctx), ctx)

    def clip(self, st, n):
        if n.int_const() is not None:
            return num(max(0, n.int_const()))
        n = st.F.simp(n)
        r = st.F.decide(le(ZERO, n))
        if r is True:
            return n
        if r is False:
            return ZERO
        return ite(le(ZERO, n), n, ZERO)

    def unrolled(self, st, xs, body, ctx, orelse):
        base = st.path
        brk = []
        alive = True
        cur = st
        for x in xs:
            L = {'exits': [], 'conts': []}
            ctx.loops.append(L)
            b2 = cur.path
            try:
                body(cur, x)
                ok = True
            except PathEnd:
                ok = False
            finally:
                ctx.loops.pop()
            sts = list(L['conts'])
            if ok:
                sts.append(cur)
            brk.extend(e[1] for e in L['exits'])
            if not sts:
                alive = False
                break
            acc = sts[-1]
            for s in reversed(sts[:-1]):
                acc = merge_state(c_and(s.path[len(b2):]), s, acc, b2)
            if acc is not cur:
                cur.become(acc)
        if alive and orelse:
            try:
                self.exec_block(cur, orelse, ctx)
            except PathEnd:
                alive = False
        out = list(brk)
        if alive:
            out.append(cur)
        if not out:
            raise PathEnd()
        acc = out[-1]
        for s in reversed(out[:-1]):
            acc = merge_state(c_and(s.path[len(base):]), s, acc, base)
        if acc is not st:
            st.become(acc)

    def while_loop(self, st, head, body, ctx, orelse):
        # a loop whose test is decided for a few iterations is unrolled
        k = 0
        first, r0, c0 = st.fork(), len(self.sinks[-1].recs), len(ctx.returns)
        while k < MAXUNROLL:
            q = st.fork()
            n0 = len(self.sinks[-1].recs)
            c = head(q)
            d = q.F.decide(c)
            if d is None:
                del self.sinks[-1].recs[n0:]
                if k:
                    # undecided after some iterations: all of them in the general form
                    del self.sinks[-1].recs[r0:]
                    del ctx.returns[c0:]
                    st.become(first)
                break
            if d is False:
                st.become(q)
                if orelse:
                    self.exec_block(st, orelse, ctx)
                return
            st.become(q)
            L = {'exits': [], 'conts': []}
            ctx.loops.append(L)
            base = st.path
            try:
                body(st, None)
                ok = True
            except PathEnd:
                ok = False
            finally:
                ctx.loops.pop()
            sts = list(L['conts']) + ([st] if ok else [])
            if L['exits']:
                # exits: the remaining iterations are analysed on the continuing part
                rest = None
                if sts:
                    acc = sts[-1]
                    for s in reversed(sts[:-1]):
                        acc = merge_state(c_and(s.path[len(base):]), s, acc, base)
                    rest = acc.fork()
                    try:
                        self.while_loop(rest, head, body, ctx, orelse)
                    except PathEnd:
                        rest = None
                out = [e[1] for e in L['exits']] + ([rest] if rest is not None else [])
                acc = out[-1]
                for s in reversed(out[:-1]):
                    acc = merge_state(c_and(s.path[len(base):]), s, acc, base)
                st.become(acc)
                return
            if not sts:
                raise PathEnd()
            acc = sts[-1]
            for s in reversed(sts[:-1]):
                acc = merge_state(c_and(s.path[len(base):]), s, acc, base)
            if acc is not st:
                st.become(acc)
            k += 1
        self.run_loop(st, None, body, ctx, head=head, orelse=orelse)

    # ------------------------------------------------------------ the general loop
    def run_loop(self, st, n, body, ctx, head=None, orelse=()):
        self.stats['loops'] += 1
        if n is not None:
            if n.int_const() == 0 or st.F.decide(le(n, ZERO)) is True:
                if orelse:
                    self.exec_block(st, orelse, ctx)
                return
        S0 = st.fork()
        i = fresh_atom('i')
        iv = from_atom(i)
        locs = {}
        order = []

        def setup(mode, e=None, X=None):
            S = S0.fork()
            if mode != 'out':
                S.assume(le(ZERO, iv))
                if n is not None:
                    S.assume(lt(iv, n))
            for key in order:
                L = locs[key]
                self.place(S, S0, key, L, mode, i, e, X)
            return S

        def run(S, q0):
            """run one body pass; returns (end state or None, exits, head cond)"""
            sink = Sink_()
            self.sinks.append(sink)
            Lc = {'exits': [], 'conts': []}
            ctx.loops.append(Lc)
            keep = ctx.returns
            ctx.returns = []
            q = S.fork()
            base = q.path
            alive = True
            hc = TRUE
            try:
                try:
                    if head is not None:
                        hc = head(q)
                        q.assume(hc)
                    if q.F.contradictory():
                        raise PathEnd()
                    body(q, iv)
                except PathEnd:
                    alive = False
            finally:
                ctx.loops.pop()
                rets = ctx.returns
                ctx.returns = keep
                self.sinks.pop()
            exits = list(Lc['exits'])
            exits += [('return', s, v, site) for s, v, site in rets]
            exits += [('raise', s, exc, site) for s, exc, site in sink.recs]
            sts = list(Lc['conts']) + ([q] if alive else [])
            end = None
            if sts:
                end = sts[-1]
                for s in reversed(sts[:-1]):
                    end = merge_state(c_and(s.path[len(base):]), s, end, base)
            return end, exits, hc

        E = None
        for attempt in range(10):
            self.quiet += 1
            try:
                S = setup('mu')
                E, exits, hc = run(S, None)
            finally:
                self.quiet -= 1
            if E is None:
                break
            if not self.discover(S0, S, E, locs, order):
                break
        else:
            raise AnalysisError('loop does not stabilise')
        if E is None and not exits:
            # the body is never completed nor left: the loop body is unreachable
            if n is not None:
                st.assume(le(n, ZERO))
                if orelse:
                    self.exec_block(st, orelse, ctx)
                return
            if head is not None:
                q = st
                hc = head(q)
                q.assume(c_not(hc))
                if q.F.contradictory():
                    raise PathEnd()
                if orelse:
                    self.exec_block(st, orelse, ctx)
                return
        if E is None:
            # at most one iteration
            def one(q):
                L = {'exits': [], 'conts': []}
                ctx.loops.append(L)
                try:
                    try:
                        body(q, ZERO)
                    except PathEnd:
                        pass
                finally:
                    ctx.loops.pop()
                if not L['exits']:
                    raise PathEnd()
                b = q.path
                outs = [e[1] for e in L['exits']]
                acc = outs[-1]
                for s in reversed(outs[:-1]):
                    acc = merge_state(c_and(s.path[len(S0.path):]), s, acc, S0.path)
                q.become(acc)

            def none(q):
                if orelse:
                    self.exec_block(q, orelse, ctx)
            c = le(ONE, n) if n is not None else head(st)
            self.branch(st, c, one, none)
            return
        # ---- counters first: the body is analysed again with their closed forms
        pre = {}
        hold = TRUE                     # holds at every iteration, in closed form
        if head is not None:
            for attempt in range(4):
                scal, bufs = {}, {}
                for key in order:
                    self.steps_of(S0, S, E, key, locs[key], scal, bufs)
                got = LoopSolver(i, n, S0.F, scal, bufs, pre).counters()
                if not got or got == pre:
                    break
                self.quiet += 1
                try:
                    S2 = setup('mix', iv, got)
                    E2, exits2, hc2 = run(S2, None)
                finally:
                    self.quiet -= 1
                if E2 is None:
                    break
                if self.discover(S0, S2, E2, locs, order):
                    self.quiet += 1
                    try:
                        S = setup('mu')
                        E, exits, hc = run(S, None)
                    finally:
                        self.quiet -= 1
                    if E is None or self.discover(S0, S, E, locs, order):
                        raise AnalysisError('loop does not stabilise')
                    pre = {}
                    hold = TRUE
                    continue
                S, E, pre = S2, E2, got
                un = set(locs[k]['mu'] for k in order if 'mu' in locs[k]) - set(pre)
                hold = c_and([c for c in (hc2.a if hc2.k == 'and' else [hc2]) if not un & set(cond_syms(c))])
        # ---- solve
        scal, bufs = {}, {}
        for key in order:
            L = locs[key]
            self.steps_of(S0, S, E, key, L, scal, bufs)
        bound = n
        if head is not None and hold.k != 'T':
            # the first iteration at which the closed part of the head fails bounds the trip count
            b = trip_(None, i, c_not(hold), S0.F)
            if b is not None and not any(a.kind == 'trip' for a in b.atoms()) and i not in num_syms(b):
                bound = S0.F.simp(b)
        sol = LoopSolver(i, bound, S0.F, scal, bufs, pre, hold)
        X = sol.run()
        self.loopinfo = sol.how
        # ---- final pass at a generic iteration
        S = setup('at', iv, X)
        E, exits, hc = run(S, None)
        if E is None and not exits:
            st.assume(le(n, ZERO) if n is not None else c_not(hc))
            if orelse:
                self.exec_block(st, orelse, ctx)
            return
        plen = len(S.path)
        Fi = S.F
        live = []
        for (kind, s, v, site) in exits:
            c = c_and(s.path[plen:])
            c = Fi.reduce(c)
            if c.k == 'F':
                continue
            live.append((kind, s, v, site, c))
        nhc = c_not(hc) if head is not None else FALSE
        if head is not None:
            nhc = Fi.reduce(nhc)
        Eany = c_or([x[4] for x in live] + [nhc])
        Tn = trip_(n, i, Eany, S0.F)
        if Tn is None:
            raise PathEnd()
        Tn = S0.F.simp(Tn)
        # closed forms of list placeholders
        ext = self.list_growth(S0, E, order, locs)
        # ---- leave through an exit
        outs = []
        mpT = {i: Tn}
        for (kind, s, v, site, c) in live:
            q = State(dict(s.heap), S0.path)
            cT = subst(c, mpT)
            if n is not None:
                cT = c_and([lt(Tn, n), cT])
            elif head is not None:
                cT = c_and([c_not(subst(nhc, mpT)), cT])
            cT = S0.F.reduce(cT)
            if cT.k == 'F':
                continue
            q.assume(cT)
            if q.F.contradictory():
                continue
            sub = Subst(q, mpT, NewIds(q, S0, mpT))
            for id in list(S0.heap):
                if s.heap.get(id) is not S0.heap[id]:
                    q.heap[id] = self.fill_mu(S0, id, sub.rec(s.heap[id]), locs, ext, Tn)
            if kind == 'return':
                ctx.returns.append((q, sub.val(v), site))
            elif kind == 'raise':
                self.sinks[-1].recs.append((q, v, site))
            else:
                outs.append(q)
        # ---- normal end
        stop = Tn
        N = None
        if n is not None:
            if live:
                done = S0.F.reduce(le(n, Tn))
            else:
                done = TRUE
            stop = n
        else:
            done = subst(nhc, mpT)
            if live:
                done = S0.F.reduce(done)
        if done.k != 'F' and E is not None or (E is None and n is None):
            out = State(dict(E.heap) if E is not None else dict(S0.heap), S0.path)
            for id in S0.heap:
                out.heap[id] = S0.heap[id]
            out.own = set()
            # values at the end
            for key in order:
                self.place(out, S0, key, locs[key], 'out', i, stop, X, E, ext)
            out.assume(done)
            if n is None and live:
                pass
            if not out.F.contradictory():
                N = out
                if orelse:
                    try:
                        self.exec_block(N, orelse, ctx)
                    except PathEnd:
                        N = None
        if N is not None:
            outs.append(N)
        if not outs:
            raise PathEnd()
        base = S0.path
        acc = outs[-1]
        for s in reversed(outs[:-1]):
            acc = merge_state(c_and(s.path[len(base):]), s, acc, base)
        st.become(acc)

    # ------------------------------------------------------------ locations
    def discover(self, S0, S, E, locs, order):
        ch = False
        for id, r0 in S.heap.items():
            if id not in S0.heap:
                continue
            r1 = E.heap.get(id)
            if r1 is r0 or r1 is None:
                continue
            if isinstance(r0, DictRec) and isinstance(r1, DictRec):
                if r1.kind == 'dict' and any(not isinstance(k, (str, int)) for k in r1.d):
                    raise AnalysisError('dict changed in a loop')
                for k in list(r1.d) + [k for k in r0.d if k not in r1.d]:
                    a = r1.d.get(k, UNDEF)
                    b = r0.d.get(k, UNDEF)
                    key = ('d', id, k)
                    if key in locs:
                        if self.widen(locs[key], S0, S, E, key, a):
                            ch = True
                        continue
                    if a is b or same(a, b):
                        continue
                    init = S0.heap[id].d.get(k, UNDEF)
                    locs[key] = self.new_loc(S0, S, E, init, a)
                    order.append(key)
                    ch = True
            elif isinstance(r0, BufRec) and isinstance(r1, BufRec):
                key = ('b', id)
                if r1.content is r0.content or r1.content == r0.content:
                    continue
                if key in locs:
                    continue
                srt = buf_sort(r0)
                nd = len(r0.shape)
                if isinstance(r0.content, tuple):
                    raise AnalysisError('channel content')
                locs[key] = {'kind': 'buf', 'mu': mk_atom('sym', (fresh_name('%b'), 'arr', srt), srt),
                             'nd': nd, 'sort': srt}
                order.append(key)
                ch = True
            elif r0.kind in ('list', 'file') or isinstance(r1, PhiRec):
                key = ('l', id)
                if key in locs:
                    L = locs[key]
                    if L['kind'] == 'list' and not growth(r1, key):
                        L['kind'] = 'unklist'
                        ch = True
                    continue
                r_init = S0.heap[id]
                locs[key] = {'kind': 'list' if isinstance(r1, (ListRec, FileRec)) and
                             isinstance(r_init, (ListRec, FileRec)) else 'unklist'}
                order.append(key)
                ch = True
        # scalars whose value after the body is no longer of the assumed kind
        for key in list(order):
            L = locs[key]
            if L['kind'] == 'tmp' and L.get('havoc') is not None and L['havoc'].read:
                L['kind'] = 'unk'
                ch = True
        return ch

    def new_loc(self, S0, S, E, init, a):
        if isinstance(init, (NumV, BoolV)) and isinstance(a, (NumV, BoolV)):
            if isinstance(init, BoolV) and isinstance(a, BoolV):
                return {'kind': 'bool', 'mu': fresh_atom('%c')}
            ty = ty_join(tyof(init), tyof(a))
            return {'kind': 's', 'ty': ty, 'mu': fresh_atom('%s', ty_sort(ty))}
        if isinstance(init, ArrV) and isinstance(a, ArrV) and len(init.shape) == len(a.shape) \
                and a.buf not in S0.heap and not any(
                    b in h and h[b].extra == ('single',) for h in (S0.heap, S.heap) + ((E.heap,) if E is not None else ())
                    for b in (a.buf, init.buf)):
            srt = dt_sort(dt_join(init.dtype, a.dtype))
            dims = []
            for x, y in zip(init.shape, a.shape):
                if x == y or S0.F.decide(eq(x, y)) is True:
                    dims.append(None)
                else:
                    dims.append(fresh_atom('%n'))
            return {'kind': 'arr', 'mu': mk_atom('sym', (fresh_name('%a'), 'arr', srt), srt), 'dims': dims,
                    'dtype': dt_join(init.dtype, a.dtype), 'nd': len(a.shape), 'sort': srt}
        return {'kind': 'tmp', 'havoc': None}

    def widen(self, L, S0, S, E, key, a):
        k = L['kind']
        if k == 's':
            if isinstance(a, (NumV, BoolV)):
                ty = ty_join(L['ty'], tyof(a))
                if ty != L['ty']:
                    L['ty'] = ty
                    L['mu'] = fresh_atom('%s', ty_sort(ty))
                    return True
                return False
            L['kind'] = 'tmp'
            L['havoc'] = None
            return True
        if k == 'bool':
            if isinstance(a, BoolV):
                return False
            L['kind'] = 'tmp'
            L['havoc'] = None
            return True
        if k == 'arr':
            if isinstance(a, ArrV) and len(a.shape) == L['nd'] and (a.buf not in S0.heap):
                ch = False
                init = S0.heap[key[1]].d[key[2]]
                for d in range(L['nd']):
                    if L['dims'][d] is None and a.shape[d] != init.shape[d] and \
                            S.F.decide(eq(a.shape[d], init.shape[d])) is not True:
                        L['dims'][d] = fresh_atom('%n')
                        ch = True
                return ch
            L['kind'] = 'tmp'
            L['havoc'] = None
            return True
        return False

    def place(self, S, S0, key, L, mode, i, e, X, E=None, ext=None):
        kind = L['kind']
        if mode == 'mix':
            mode = 'at' if kind == 's' and L['mu'] in X else 'mu'
        if key[0] == 'd':
            _, id, name = key
            init = S0.heap[id].d.get(name, UNDEF) if id in S0.heap else UNDEF
            if kind == 's':
                if mode == 'mu':
                    v = NumV(from_atom(L['mu']), L['ty'])
                else:
                    v = NumV(S.F.simp(subst(X[L['mu']], {i: e})), L['ty'])
            elif kind == 'bool':
                if mode == 'mu':
                    v = BoolV(eq(from_atom(L['mu']), ONE))
                else:
                    t = subst(X[L['mu']], {i: e})
                    v = BoolV(S.F.reduce(eq(t, ONE)))
            elif kind == 'arr':
                init = S0.heap[id].d[name]
                shape = []
                for d, m in enumerate(L['dims']):
                    if m is None:
                        shape.append(init.shape[d])
                    elif mode == 'mu':
                        shape.append(from_atom(m))
                    else:
                        shape.append(S.F.simp(subst(X[m], {i: e})))
                if mode == 'mu':
                    ps = [fresh_atom('q') for _ in range(L['nd'])]
                    lam = mk_lam(ps, sel(L['mu'], [from_atom(p) for p in ps], L['sort']))
                else:
                    lam = subst_lam(X[L['mu']], {i: e})
                b = S.new('buf', BufRec(shape, lam, L['dtype'], 'loop'))
                L.setdefault('ids', set()).add(b)
                v = ArrV(b, PVT[:L['nd']], shape, L['dtype'], True)
            elif kind == 'tmp':
                if mode == 'out':
                    a = E.heap[id].d.get(name, UNDEF) if E is not None else UNDEF
                    if isinstance(a, UnkV) and a is L.get('havoc'):
                        v = init
                    else:
                        mp = {i: e - 1}
                        sub = Subst(S, mp, NewIds(S, S0, mp))
                        v = merge_val(S.F.reduce(le(ONE, e)), sub.val(a), init)
                else:
                    L['havoc'] = HavocV(key)
                    v = L['havoc']
                    if init is UNDEF and mode == 'at':
                        v = L['havoc']
            else:
                v = self.unknown('loop-carried %s' % (name,))
            S.mut(id).d[name] = v
            return
        if key[0] == 'b':
            id = key[1]
            r = S.mut(id)
            if kind == 'buf':
                if mode == 'mu':
                    ps = [fresh_atom('q') for _ in range(L['nd'])]
                    r.content = mk_lam(ps, sel(L['mu'], [from_atom(p) for p in ps], L['sort']))
                else:
                    r.content = subst_lam(X[L['mu']], {i: e})
            return
        if key[0] == 'l':
            id = key[1]
            if kind == 'list':
                r0 = S0.heap[id]
                if mode == 'out':
                    r = S.mut(id)
                    r.segs = list(r0.segs)
                    new = ext.get(id)
                    if new is None:
                        r.segs.append(('unk',))
                    elif new:
                        r.segs.append(('rep', e, i, tuple(new)))
                else:
                    S.mut(id).segs = [('mu', key)]
            else:
                self.unknown('list changed in loop')
                r0 = S0.heap[id]
                S.heap[id] = type(r0)([('unk',)]) if not isinstance(r0, PhiRec) else ListRec([('unk',)])
            return

    def steps_of(self, S0, S, E, key, L, scal, bufs):
        kind = L['kind']
        if kind == 's':
            _, id, name = key
            init = S0.heap[id].d[name]
            a = E.heap[id].d[name]
            scal[key] = (L['mu'], asnum(init), asnum(a))
        elif kind == 'bool':
            _, id, name = key
            init = S0.heap[id].d[name]
            a = E.heap[id].d[name]
            scal[key] = (L['mu'], ite(init.c, ONE, ZERO), ite(a.c, ONE, ZERO))
        elif kind == 'buf':
            id = key[1]
            bufs[key] = (L['mu'], L['nd'], S0.heap[id].content, E.heap[id].content)
        elif kind == 'arr':
            _, id, name = key
            init = S0.heap[id].d[name]
            a = E.heap[id].d[name]
            for d, m in enumerate(L['dims']):
                if m is not None:
                    scal[key + (d,)] = (m, init.shape[d], a.shape[d])
            l0 = self.arr_lam(S0, init)
            ps, body = open_lam(self.arr_lam(E, a))
            qs = [from_atom(p) for p in ps]
            old = sel(L['mu'], qs, L['sort'])
            body = subst(body, {T.JUNK_ATOM: old})
            bufs[key] = (L['mu'], L['nd'], l0, mk_lam(ps, body))

    def list_growth(self, S0, E, order, locs):
        ext = {}
        if E is None:
            return ext
        for key in order:
            if key[0] == 'l' and locs[key]['kind'] == 'list':
                r1 = E.heap[key[1]]
                g = growth(r1, key)
                ext[key[1]] = None if g is False else list(r1.segs[1:])
        return ext

    def fill_mu(self, S0, id, rec, locs, ext, Tn):
        if isinstance(rec, (ListRec, FileRec)) and rec.segs and rec.segs[0][0] == 'mu':
            r0 = S0.heap[id]
            new = ext.get(id)
            pre = list(r0.segs)
            if new is None:
                pre.append(('unk',))
            elif new:
                # iteration symbol of the repeated part is kept as bound name
                pre.append(('unk',))
            rec.segs = pre + list(rec.segs[1:])
        return rec


class NewIds(object):
    """ids allocated inside the loop that depend on the iteration symbol"""
    def __init__(self, st, S0, mp):
        self.st, self.S0, self.mp = st, S0, mp
        self.memo = {}

    def __contains__(self, i):
        if i in self.S0.heap:
            return False
        r = self.memo.get(i)
        if r is None:
            from .pyint import rec_mentions
            self.memo[i] = False
            rec = self.st.heap.get(i)
            r = rec is not None and any(rec_mentions(self.st, rec, a, set([i])) for a in self.mp)
            self.memo[i] = r
        return r


class Sink_(object):
    def __init__(self):
        self.recs = []


def growth(r, key):
    if not isinstance(r, (ListRec, FileRec)):
        return False
    if not r.segs or r.segs[0] != ('mu', key):
        return False
    if any(s[0] in ('unk', 'mu') for s in r.segs[1:]):
        return False
    return True


def tyof(v):
    return v.ty if isinstance(v, NumV) else 'bool'


def asnum(v):
    return v.t if isinstance(v, NumV) else ite(v.c, ONE, ZERO)


def ty_sort(ty):
    return {'bool': 'int', 'int': 'int', 'npint': 'int', 'float': 'real', 'npfloat': 'real',
            'complex': 'complex', 'npcomplex': 'complex'}[ty]


def dt_sort(d):
    return {'bool': 'int', 'int64': 'int', 'float64': 'real', 'complex128': 'complex'}.get(d, 'complex')


DT = ('bool', 'int64', 'float64', 'complex128', 'object')


def dt_join(a, b):
    return a if DT.index(a) >= DT.index(b) else b


def buf_sort(r):
    return dt_sort(r.dtype)
