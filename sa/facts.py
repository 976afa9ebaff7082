"""Facts domain: conjunctions of polynomial constraints over terms, with a
polyhedral (Fourier-Motzkin, integer-tightened) entailment test.  This is the
relational abstract domain of the analysis; `decide` is three-valued."""
import time
from fractions import Fraction
from math import gcd
from .terms import *
from . import terms as T

ATOM_FACTS = {}      # Atom -> list of Cond, always true of the atom

MAXC = 260
_stats = {'inf': 0, 'fm': 0}


def _int_rows(row, const, eq, strict):
    return row, const, eq, strict


class Sys(object):
    """linear rows: (dict var->Fraction, const, strict) meaning sum + const <= 0 (< 0)"""


def _norm_row(row, k, strict, intset):
    """normalise; returns (key, k, strict) or True (trivial) / False (contradiction)"""
    row = {v: c for v, c in row.items() if c != 0}
    if not row:
        if k > 0 or (strict and k >= 0):
            return False
        return True
    n, d = 0, 1
    for c in row.values():
        n = gcd(n, abs(c.numerator))
        d = d * c.denominator // gcd(d, c.denominator)
    if n != 1 or d != 1:
        g = Q(n, d)
        row = {v: div(c, g) for v, c in row.items()}
        k = div(k, g)
    if all(v in intset for v in row):
        if strict:
            # integer lhs, < -k  ->  <= ceil(-k)-1
            b = -k
            bb = -((-b.numerator) // b.denominator) - 1
            k = -bb
            strict = False
        else:
            b = -k
            bb = b.numerator // b.denominator
            k = -bb
    return (tuple(sorted(row.items())), k, strict)


def fm_infeasible(ineqs, eqs, intset):
    """ineqs: list of (row dict, const, strict); eqs: list of (row dict, const)"""
    _stats['fm'] += 1
    # Gaussian elimination
    eqs = [(dict(r), k) for r, k in eqs]
    ineqs = [(dict(r), k, s) for r, k, s in ineqs]
    while eqs:
        r, k = eqs.pop()
        r = {v: c for v, c in r.items() if c != 0}
        if not r:
            if k != 0:
                return True
            continue
        if all(v in intset for v in r):
            n, d = 0, 1
            for c in r.values():
                n = gcd(n, abs(c.numerator))
                d = d * c.denominator // gcd(d, c.denominator)
            g = Q(n, d)
            if (div(k, g)).denominator != 1:
                return True
        # choose unit-coefficient pivot if possible
        n, d = 0, 1
        for c in r.values():
            n = gcd(n, abs(c.numerator))
            d = d * c.denominator // gcd(d, c.denominator)
        g = Q(n, d)
        piv = None
        for v, c in r.items():
            if v not in intset or abs(c) == g:
                if piv is None or (v not in intset and piv in intset):
                    piv = v
        hard = False
        if piv is None:
            piv = min(r, key=lambda v: abs(r[v]))
            hard = True
        c = r.pop(piv)
        # piv = -(r + k)/c
        sub = {v: div(-x, c) for v, x in r.items()}
        sk = div(-k, c)
        if hard:
            # keep integrality of pivot: nothing more (sound, incomplete)
            pass

        def app(row, kk):
            x = row.pop(piv, None)
            if x is None or x == 0:
                return row, kk
            for v, y in sub.items():
                row[v] = row.get(v, 0) + x * y
            return row, kk + x * sk
        eqs = [app(a, b) for a, b in eqs]
        ineqs = [app(a, b) + (s,) for a, b, s in ineqs]
    rows = {}

    def put(row, k, s):
        t = _norm_row(row, k, s, intset)
        if t is True:
            return True
        if t is False:
            return False
        key, k, s = t
        o = rows.get(key)
        if o is None or (k > o[0]) or (k == o[0] and s and not o[1]):
            rows[key] = (k, s)
        return True
    for r, k, s in ineqs:
        if not put(r, k, s):
            return True
    while rows:
        # direct contradiction check between opposite rows
        occ = {}
        for key in rows:
            for v, c in key:
                p = occ.setdefault(v, [0, 0])
                p[0 if c > 0 else 1] += 1
        best, bc = None, None
        for v, (p, n) in occ.items():
            cost = p * n - p - n
            if bc is None or cost < bc:
                best, bc = v, cost
        pos, neg, rest = [], [], {}
        for key, (k, s) in rows.items():
            c = None
            for v, x in key:
                if v == best:
                    c = x
                    break
            if c is None:
                rest[key] = (k, s)
            elif c > 0:
                pos.append((dict(key), k, s, c))
            else:
                neg.append((dict(key), k, s, c))
        if len(rest) + len(pos) * len(neg) > MAXC:
            return simplex_infeasible(rows)
        rows = rest
        for r1, k1, s1, c1 in pos:
            for r2, k2, s2, c2 in neg:
                row = {}
                for v, x in r1.items():
                    row[v] = -x * c2
                for v, x in r2.items():
                    row[v] = row.get(v, 0) + x * c1
                row.pop(best, None)
                if not put(row, k2 * c1 - k1 * c2, s1 or s2):
                    return True
    return False


# --------------------------------------------------------------------------
def simplex_infeasible(rows):
    """general simplex (upper bounds on slacks, Bland's rule) over the
    rationals; strictness through an infinitesimal"""
    _stats['lp'] = _stats.get('lp', 0) + 1
    vs = {}
    for key in rows:
        for v, c in key:
            vs.setdefault(v, len(vs))
    nv = len(vs)
    ub = {}
    tab = {}
    for j, (key, (k, s)) in enumerate(rows.items()):
        tab[nv + j] = dict((vs[v], c) for v, c in key)
        ub[nv + j] = (-k, -1 if s else 0)
    val = {}
    Z = (0, 0)
    for v in range(nv + len(rows)):
        val[v] = Z
    for it in range(400):
        bad = None
        for b in sorted(tab):
            if b in ub and val[b] > ub[b]:
                bad = b
                break
        if bad is None:
            return False
        row = tab[bad]
        piv = None
        # decrease bad: nonbasic x_j with coef c: c>0 -> decrease x_j (always allowed: no
        # lower bounds); c<0 -> increase x_j if below its upper bound
        for j in sorted(row):
            c = row[j]
            if c > 0 or j not in ub or val[j] < ub[j]:
                piv = j
                if j < nv:
                    break
                break
        if piv is None:
            return True
        c = row.pop(piv)
        # bad = c*piv + rest  ->  piv = bad/c - rest/c
        new = dict((j, div(-x, c)) for j, x in row.items())
        new[bad] = div(1, c)
        del tab[bad]
        d0 = (ub[bad][0] - val[bad][0], ub[bad][1] - val[bad][1])
        th = (div(d0[0], c), div(d0[1], c))
        val[bad] = ub[bad]
        val[piv] = (val[piv][0] + th[0], val[piv][1] + th[1])
        for b, r in tab.items():
            x = r.pop(piv, None)
            if x is None or x == 0:
                continue
            val[b] = (val[b][0] + x * th[0], val[b][1] + x * th[1])
            for j, y in new.items():
                z = r.get(j, 0) + x * y
                if z == 0:
                    r.pop(j, None)
                else:
                    r[j] = z
        tab[piv] = new
    return False


def mono_is_int(m):
    return all(a.sort == 'int' and e > 0 for a, e in m)


def _literals(conds):
    """flatten a list of Conds: returns (atomic list, ors list) or None if false"""
    lits, ors = [], []
    st = list(conds)
    while st:
        c = st.pop()
        k = c.k
        if k == 'T':
            continue
        if k == 'F':
            return None
        if k == 'and':
            st.extend(c.a)
        elif k == 'or':
            ors.append(c)
        else:
            lits.append(c)
    return lits, ors


def _atoms_of(conds):
    seen = {}
    st = []
    for c in conds:
        if c.k in ('le', 'lt', 'eq'):
            st.extend(c.a.atoms())
        elif c.k == 'not' and c.a.k == 'eq':
            st.extend(c.a.a.atoms())
        elif c.k in ('and', 'or'):
            for x in c.a:
                if x.k in ('le', 'lt', 'eq'):
                    st.extend(x.a.atoms())
                elif x.k == 'not' and x.a.k == 'eq':
                    st.extend(x.a.a.atoms())
    while st:
        a = st.pop()
        if a in seen:
            continue
        seen[a] = 1
    return list(seen)


_axc = {}


def axioms(a):
    r = _axc.get(a)
    if r is None:
        r = _axioms(a)
        _axc[a] = r
    return r


def _axioms(a):
    """constraints always true of an interpreted atom (as Conds)"""
    r = ATOM_FACTS.get(a)
    out = list(r) if r else []
    k = a.kind
    x = from_atom(a)
    if k == 'abs':
        p = a.args[0]
        out += [le(p, x), le(-p, x), le(ZERO, x)]
    elif k == 'mod':
        kk = a.args[1]
        if kk.int_const() is not None:
            out += [le(ZERO, x), le(x, kk - 1)]
        else:
            out += [c_or([le(kk, ZERO), c_and([le(ZERO, x), le(x, kk - 1)])])]
    elif k == 'pyfn' and a.args[0].startswith('nextq'):
        out.append(le(a.args[1], x))
    elif k in ('cabs', 'sqrt'):
        out.append(le(ZERO, x))
    elif k == 'floor':
        p = a.args[0]
        out += [le(x, p), lt(p, x + 1)]
    elif k == 'pi':
        out += [le(num(3), x), le(x, num(4))]
    elif k == 'trip':
        out.append(le(ZERO, x))
        if a.args[0] != num(-1):
            out.append(c_or([le(x, a.args[0]), le(a.args[0], ZERO)]))
    elif k == 'loop':
        out += monotone(a)
    return out


_mono = {}


def monotone(a):
    """a scalar of an unsolved loop that no iteration decreases is >= its
    initial value (and dually)"""
    comp, count, inits, steps = a.args[:4]
    if isinstance(inits[comp], Lam):
        return []
    key = (comp, inits, steps)
    r = _mono.get(key)
    if r is None:
        _mono[key] = []
        ps, body = open_lam(steps[comp])
        mu = from_atom(ps[1 + comp])
        up = down = False
        if body.sort != 'complex':
            up = TOP.add(le(ZERO, from_atom(ps[0]))).decide(le(mu, body)) is True
            down = not up and TOP.add(le(ZERO, from_atom(ps[0]))).decide(le(body, mu)) is True
        r = 'up' if up else ('down' if down else '')
        _mono[key] = r
    if r == 'up':
        return [le(inits[comp], from_atom(a))]
    if r == 'down':
        return [le(from_atom(a), inits[comp])]
    return []


def infeasible(conds, depth=5, products=True):
    """True only if the conjunction of conds has no model."""
    _stats['inf'] += 1
    r = _literals(conds)
    if r is None:
        return True
    lits, ors = r
    ls = set(lits)
    for c in lits:
        if c_not(c) in ls:
            return True
    # add axioms, closure over atoms of the axioms
    known = set()
    allc = list(lits)
    allors = list(ors)
    queue = _atoms_of(lits + ors)
    while queue:
        a = queue.pop()
        if a in known:
            continue
        known.add(a)
        for ax in axioms(a):
            if ax.k == 'or':
                allors.append(ax)
            elif ax.k == 'and':
                allc.extend(ax.a)
            else:
                allc.append(ax)
            queue.extend(b for b in _atoms_of([ax]) if b not in known)
    # linear part
    ineqs, eqs, nes = [], [], []
    others = []
    intset = set()

    def rowof(p):
        row, k = {}, 0
        for m, c in p.t.items():
            if m == ():
                k = c
            else:
                row[m] = c
                if mono_is_int(m):
                    intset.add(m)
        return row, k
    for c in allc:
        if c.k == 'F':
            return True
        if c.k == 'T':
            continue
        if c.k in ('le', 'lt', 'eq') and c.a.sort == 'complex':
            others.append(c)
            continue
        if c.k == 'le':
            row, k = rowof(c.a)
            ineqs.append((row, k, False))
        elif c.k == 'lt':
            row, k = rowof(c.a)
            ineqs.append((row, k, True))
        elif c.k == 'eq':
            row, k = rowof(c.a)
            eqs.append((row, k))
        elif c.k == 'not' and c.a.k == 'eq':
            nes.append(c.a.a)
        else:
            others.append(c)
    # integrality of mod atoms: x = mod + k t ; integer valued combos
    nt = 0
    for a in list(known):
        if a.kind == 'mod' and a.args[1].int_const() is not None and a.args[0].sort == 'int':
            row, k = rowof(a.args[0] - from_atom(a))
            tv = ((mk_atom('sym', ('%%t%d' % nt, 'int'), 'int'), 1),)
            nt += 1
            intset.add(tv)
            row[tv] = -Q(a.args[1].int_const())
            eqs.append((row, k))
    # monomial facts
    monos = set()
    for row, k, s in ineqs:
        monos |= set(row)
    for row, k in eqs:
        monos |= set(row)
    for m in monos:
        if m and len(m) == 1 and m[0][1] == 2 and m[0][0].sort != 'complex':
            ineqs.append(({m: -1}, 0, False))
            if m[0][0].sort == 'int':
                v = ((m[0][0], 1),)
                intset.add(v)
                intset.add(m)
                # x^2 >= x, x^2 >= -x
                ineqs.append(({m: -1, v: 1}, 0, False))
                ineqs.append(({m: -1, v: -1}, 0, False))
    if fm_infeasible(ineqs, eqs, intset):
        return True
    if products:
        nl = [m for m in monos if m and sum(abs(e) for a, e in m) > 1]
        if nl:
            base = [c.a for c in allc if c.k == 'le' and c.a.sort != 'complex']
            base = [p for p in base if len(p.t) <= 4 and
                    all(sum(abs(e) for a, e in m) <= 1 for m in p.t)]
            want = set()
            for m in nl:
                for a, e in m:
                    want.add(a)
            base = [p for p in base if any(a in want for a in p.atoms())][:16]
            extra = []
            for i in range(len(base)):
                for j in range(i, len(base)):
                    pr = base[i] * base[j]
                    if any(m in monos for m in pr.t if sum(abs(e) for a, e in m) > 1):
                        row, k = rowof(-pr)
                        extra.append((row, k, False))
            eqb = [c.a for c in allc if c.k == 'eq' and c.a.sort != 'complex' and len(c.a.t) <= 4
                   and all(sum(abs(e) for a, e in m) <= 1 for m in c.a.t)]
            exeq = []
            for p in eqb[:6]:
                for a in want:
                    exeq.append(rowof(p * from_atom(a)))
            if extra or exeq:
                if fm_infeasible(ineqs + extra, eqs + exeq, intset):
                    return True
    if depth <= 0:
        return False
    # case splits -----------------------------------------------------------
    # disequalities of integer terms
    for p in nes:
        if p.sort == 'complex':
            continue
        c1, c2 = lt0(p), lt0(-p)
        if infeasible(list(lits) + list(ors) + [c1], 0, False):
            return infeasible([x for x in lits if x is not c_not(eq0(p))] + list(ors) + [c2], depth - 1, products)
        if infeasible(list(lits) + list(ors) + [c2], 0, False):
            return infeasible([x for x in lits if x is not c_not(eq0(p))] + list(ors) + [c1], depth - 1, products)
    for o in sorted(allors, key=lambda o: len(o.a)):
        rest = [x for x in ors if x is not o]
        alts = []
        for alt in o.a:
            if not infeasible(list(lits) + [alt], 0, False):
                alts.append(alt)
        if not alts:
            return True
        if len(alts) == 1:
            if o in ors:
                return infeasible(list(lits) + rest + [alts[0]], depth - 1, products)
            if alts[0] in ls:
                continue
            return infeasible(list(lits) + rest + [alts[0]], depth - 1, products)
        if depth >= 2 and len(alts) <= 4:
            if o not in ors and any(al in ls for al in alts):
                continue
            return all(infeasible(list(lits) + rest + [alt], depth - 2, products) for alt in alts)
        break
    for a in known:
        if a.kind == 'ite' and a.sort != 'complex':
            c, x, y = a.args
            sub1 = [subst(l, {a: x}) for l in lits + ors] + [c]
            sub2 = [subst(l, {a: y}) for l in lits + ors] + [c_not(c)]
            return infeasible(sub1, depth - 1, products) and infeasible(sub2, depth - 1, products)
    for a in known:
        if a.kind == 'abs':
            p = a.args[0]
            c = le(ZERO, p)
            sub1 = [subst(l, {a: p}) for l in lits + ors] + [c]
            sub2 = [subst(l, {a: -p}) for l in lits + ors] + [c_not(c)]
            return infeasible(sub1, depth - 1, products) and infeasible(sub2, depth - 1, products)
    return False


# --------------------------------------------------------------------------
class Facts(object):
    table = {}

    def __new__(cls, conds=()):
        key = frozenset(conds)
        f = cls.table.get(key)
        if f is None:
            f = object.__new__(cls)
            f.conds = key
            f.cache = {}
            f.scache = {}
            f._bad = None
            f._lst = tuple(key)
            cls.table[key] = f
        return f

    def add(self, *cs):
        s = set(self.conds)
        n = len(s)
        for c in cs:
            if c.k == 'T':
                continue
            if c.k == 'and':
                s |= c.a
            else:
                s.add(c)
        if len(s) == n:
            return self
        return Facts(s)

    def relevant(self, c):
        """facts transitively sharing leaf symbols with c"""
        want = set(a for a in T._syms_any(c))
        out = []
        left = list(self._lst)
        changed = True
        while changed:
            changed = False
            nl = []
            for f in left:
                sy = cond_syms(f)
                if any(a in want for a in sy if a.kind not in ('I', 'pi')):
                    out.append(f)
                    want |= set(sy)
                    changed = True
                else:
                    nl.append(f)
            left = nl
        return out

    def contradictory(self):
        if self._bad is None:
            self._bad = infeasible(self._lst)
        return self._bad

    def decide(self, c):
        """True / False / None"""
        if c.k == 'T':
            return True
        if c.k == 'F':
            return False
        r = self.cache.get(c, 0)
        if r != 0:
            return r
        r = self._decide(c)
        self.cache[c] = r
        return r

    def _decide(self, c):
        if _deadline[0] is not None and time.process_time() > _deadline[0]:
            raise OutOfTime()
        if c in self.conds:
            return True
        n = c_not(c)
        if n in self.conds:
            return False
        k = c.k
        if k == 'not' and c.a.k not in ('eq',):
            r = self.decide(c.a)
            return None if r is None else (not r)
        if k == 'and':
            un = False
            for x in c.a:
                r = self.decide(x)
                if r is False:
                    return False
                if r is None:
                    un = True
            if not un:
                return True
            rel = self.relevant(c)
            if infeasible(rel + [c], 3):
                return False
            return None
        if k == 'or':
            un = False
            for x in c.a:
                r = self.decide(x)
                if r is True:
                    return True
                if r is None:
                    un = True
            if not un:
                return False
            rel = self.relevant(c)
            if infeasible(rel + [n], 3):
                return True
            return None
        if k == 'b':
            return None
        # atomic arithmetic
        rel = self.relevant(c)
        s = self.simp_cond(c)
        if s is not c:
            if s.k == 'T':
                return True
            if s.k == 'F':
                return False
            return self.decide(s)
        if k == 'eq' or (k == 'not' and c.a.k == 'eq'):
            e = c if k == 'eq' else c.a
            if e.a.sort == 'complex':
                if k == 'eq':
                    return None
                return None
            # infeasible with eq -> ne
            if infeasible(rel + [e], 3):
                return k != 'eq'
            l1 = infeasible(rel + [lt0(e.a)], 3)
            if l1 and infeasible(rel + [lt0(-e.a)], 3):
                return k == 'eq'
            return None
        if c.a.sort == 'complex':
            return None
        if infeasible(rel + [n], 4):
            return True
        if infeasible(rel + [c], 4):
            return False
        return self.by_cases(c, rel)

    _cases = 0

    def by_cases(self, c, rel):
        """decide an atomic condition by splitting on the conditions of the
        conditional terms it contains"""
        if Facts._cases >= 3:
            return None
        for a in c.a.atoms():
            if a.kind == 'ite':
                s = atomic_split(a.args[0], self)
            elif a.kind == 'abs':
                s = le(ZERO, a.args[0])
            else:
                continue
            if s is None or self.decide(s) is not None:
                continue
            Facts._cases += 1
            try:
                r = []
                for g in (s, c_not(s)):
                    G = Facts([g]) if g.k != 'and' else TOP.add(g)
                    F2 = Facts([g]).add(*[G.simp_cond(f) for f in rel if f is not g])
                    if FALSE in F2.conds or F2.contradictory():
                        continue
                    x = F2.decide(F2.simp_cond(c))
                    if x is None:
                        return None
                    r.append(x)
            finally:
                Facts._cases -= 1
            if r and all(x == r[0] for x in r):
                return r[0]
            return None
        return None

    def holds(self, c):
        return self.decide(c) is True

    # -- simplification --------------------------------------------------
    def simp(self, p):
        if not p.t:
            return p
        r = self.scache.get(p)
        if r is not None:
            return r
        r = self._simp(p)
        self.scache[p] = r
        return r

    def _simp(self, p):
        mp = {}
        for a in p.atoms():
            v = self._simp_atom(a)
            if v is not None:
                mp[a] = v
        if mp:
            q = _replace_top(p, mp)
            if q != p:
                return self.simp(q)
        return p

    def simp_cond(self, c):
        k = c.k
        if k in ('T', 'F', 'b'):
            return c
        if k == 'le':
            q = self.simp(c.a)
            return c if q == c.a else le0(q)
        if k == 'lt':
            q = self.simp(c.a)
            return c if q == c.a else lt0(q)
        if k == 'eq':
            q = self.simp(c.a)
            return c if q == c.a else eq0(q)
        if k == 'not':
            return c_not(self.simp_cond(c.a))
        out = []
        for x in c.a:
            out.append(self.simp_cond(x))
        return c_and(out) if k == 'and' else c_or(out)

    def pinned_false(self, c):
        """an equality among the conjuncts pins a symbol to a value that another one excludes"""
        for x in c.a:
            if x.k != 'eq' or len(x.a.t) > 3:
                continue
            for m, co in x.a.t.items():
                if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == 'sym' and m[0][0].sort == 'int' and abs(co) == 1:
                    a = m[0][0]
                    e = (from_atom(a).scale(co) - x.a).scale(co)
                    if e.sort != 'int' or a in T.num_syms(e):
                        continue
                    for y in c.a:
                        if y is not x and a in T.cond_syms(y) and self.decide(T.subst(y, {a: e})) is False:
                            return True
        return False

    def reduce(self, c):
        """simplify a condition: drop decided parts"""
        r = self.decide(c)
        if r is True:
            return TRUE
        if r is False:
            return FALSE
        if c.k == 'and':
            if self.pinned_false(c):
                return FALSE
            cs = [self.reduce(x) for x in c.a]
            # drop conjuncts implied by the others
            cs2 = c_and(cs)
            if cs2.k == 'and':
                items = list(cs2.a)
                keep = list(items)
                for x in items:
                    rest = [y for y in keep if y is not x]
                    if rest and self.add(*rest).decide(x) is True:
                        keep = rest
                return c_and(keep)
            return cs2
        if c.k == 'or':
            return c_or([self.reduce(x) for x in c.a])
        return self.simp_cond(c)

    def _simp_atom(self, a):
        k = a.kind
        if k == 'ite':
            c = a.args[0]
            r = self.decide(c)
            if r is True:
                return self.simp(a.args[1])
            if r is False:
                return self.simp(a.args[2])
            cc = self.simp_cond(c)
            if cc.k == 'and':
                cc = c_and([y for y in cc.a if self.decide(y) is not True])
            elif cc.k == 'or':
                cc = c_or([y for y in cc.a if self.decide(y) is not False])
            x = self.add(c).simp(a.args[1])
            y = self.add(c_not(c)).simp(a.args[2])
            if x == y:
                return x
            if cc is not c or x != a.args[1] or y != a.args[2]:
                return ite(cc, x, y)
            return None
        if k == 'abs':
            q = self.simp(a.args[0])
            r = self.decide(le(ZERO, q))
            if r is True:
                return q
            if r is False:
                return -q
            r = self.decide(le(q, ZERO))
            if r is True:
                return -q
            if q != a.args[0]:
                return abs_(q)
            return None
        if k == 'mod':
            q, m = self.simp(a.args[0]), self.simp(a.args[1])
            if q != a.args[0] or m != a.args[1]:
                return mod_(q, m)
            mc = m.int_const()
            if mc is not None and 0 < mc <= 3:
                for r in range(mc):
                    if eq(from_atom(a), num(r)) in self.conds or (
                            mc == 2 and c_not(eq(from_atom(a), num(1 - r))) in self.conds):
                        return num(r)
            if self.decide(le(ZERO, q)) is True:
                if self.decide(lt(q, m)) is True:
                    return q
                if self.decide(lt(ZERO, m)) is True and self.decide(le(m, q)) is True \
                        and self.decide(lt(q, m + m)) is True:
                    return q - m
            elif self.decide(lt(q, ZERO)) is True and self.decide(le(-m, q)) is True:
                return q + m
            return None
        if k in ('sym', 'I', 'pi', 'unk'):
            return None
        if k in ('re', 'im') and isinstance(a.args[0], Atom) and a.args[0].kind == 'ipow':
            par = self.simp(T.mod_(a.args[0].args[0], num(2))).int_const()
            z = from_atom(a.args[0])
            if par == 0:
                return z if k == 're' else ZERO
            if par == 1:
                return ZERO if k == 're' else -T.I * z
            return None
        if k == 'rec':
            E = self.simp(a.args[0])
            if self.decide(lt(E, ZERO)) is True:
                return self.simp(a.args[2](E))
            c = E.int_const()
            if c is not None and c < 4:
                return self.simp(unfold_rec(a, E))
        if k == 'stk':
            from .core import simp_stk
            r = simp_stk(a, self)
            if r is not None:
                return r
        ch = False
        args = []
        for x in a.args:
            if isinstance(x, Num):
                y = self.simp(x)
                ch = ch or y != x
                args.append(y)
            elif isinstance(x, Cond):
                y = self.simp_cond(x)
                ch = ch or y is not x
                args.append(y)
            elif isinstance(x, Lam) and k in ('sum', 'prod', 'maxf'):
                ps, body = open_lam(x)
                v = from_atom(ps[0])
                hi = args[0]
                y = self.add(le(ZERO, v), le(v, hi)).simp(body)
                if y != body:
                    ch = True
                    x = mk_lam(ps, y)
                args.append(x)
            elif isinstance(x, Atom):
                args.append(x)
            else:
                args.append(x)
        if k in ('sum', 'prod', 'maxf') and isinstance(args[0], Num):
            if self.decide(lt(args[0], ZERO)) is True:
                return ZERO if k == 'sum' else (ONE if k == 'prod' else None)
            if self.decide(eq(args[0], ZERO)) is True and k != 'maxf':
                return args[1](ZERO)
        if ch:
            return T.rebuild(a, args)
        return None


def _replace_top(p, mp):
    """replace atoms at the top level of the polynomial only"""
    res = ZERO
    for m, c in p.t.items():
        keep = {}
        extra = ONE
        for a, e in m:
            v = mp.get(a)
            if v is None:
                keep[a] = e
            else:
                extra = extra * (v ** e)
        mono = tuple(sorted(keep.items(), key=lambda q: q[0].id))
        res = res + Num({mono: c}) * extra
    return res


TOP = Facts()


# --------------------------------------------------------------------------
def split_candidates(p, F):
    """conditions on which the value of p depends at its top level"""
    out = []
    st = list(p.atoms())
    seen = set()
    while st:
        a = st.pop()
        if a in seen:
            continue
        seen.add(a)
        if a.kind == 'ite':
            c = a.args[0]
            out.append(c)
            continue
        if a.kind == 'abs':
            out.append(le(ZERO, a.args[0]))
        if a.kind == 'mod' and a.args[1].int_const() is None:
            out.append(le(ZERO, a.args[0]))
        if a.kind == 'mod' and a.args[1].int_const() == 2:
            out.append(eq(from_atom(a), ONE))
        for x in a.args:
            if isinstance(x, Num):
                st.extend(x.atoms())
            elif isinstance(x, Atom):
                pass
    return out


def atomic_split(c, F):
    """an undecided atomic condition inside c"""
    if c.k in ('and', 'or'):
        for x in c.a:
            if F.decide(x) is None:
                r = atomic_split(x, F)
                if r is not None:
                    return r
        return None
    if c.k == 'not' and c.a.k != 'eq':
        return atomic_split(c.a, F)
    if c.k == 'not':
        return c.a
    return c


class OutOfTime(Exception):
    pass


_deadline = [None]


def deadline(seconds):
    _deadline[0] = None if seconds is None else time.process_time() + seconds


def equal(t1, t2, F, depth=7):
    """True if the two terms are equal under F, else None (not proven)."""
    d = F.simp(t1 - t2)
    return zero(d, F, depth)


def zero(d, F, depth):
    if d.is_zero():
        return True
    if _deadline[0] is not None and time.process_time() > _deadline[0]:
        raise OutOfTime()
    if d.opaque and d.const() is not None:
        return None
    if d.const() is not None:
        return True if F.contradictory() else None
    # split on conditions
    if depth > 0:
        for c in split_candidates(d, F):
            if F.decide(c) is not None:
                continue
            c = atomic_split(c, F)
            if c is None:
                continue
            for cc in (c, c_not(c)):
                F2 = F.add(cc)
                if F2.contradictory():
                    continue
                if zero(F2.simp(d), F2, depth - 1) is not True:
                    return None
            return True
    if d.sort != 'complex' and len(d.t) <= 24 and F.decide(eq0(d)) is True:
        return True
    if d.sort == 'complex':
        d2 = T.combine_parts(d)
        if d2 is not d:
            return zero(F.simp(d2), F, depth)
    # products of transforms
    for a in d.atoms():
        if a.kind == 'dft' and a.args[0] == 1:
            v = convolution(a)
            if v is not None:
                return zero(F.simp(T.subst(d, {a: v})), F, depth)
    # sums over the same range
    covered = False
    if depth > 0 and any(a.kind == 'sum' for a in d.atoms()):
        d2 = drop_sums(d, F, depth)
        if d2 is False:
            covered = True
        elif d2 is not None:
            return zero(F.simp(d2), F, depth - 1)
    # congruence between atoms
    ats = [a for a in d.atoms() if a.kind not in ('sym', 'I', 'pi', 'unk')]
    for i in range(len(ats)):
        for j in range(i + 1, len(ats)):
            a, b = ats[i], ats[j]
            if covered and a.kind == b.kind == 'sum' and a.args[0] == b.args[0]:
                continue
            if same_atom(a, b, F, depth - 1):
                d2 = T.subst(d, {b: from_atom(a)})
                if d2 != d:
                    return zero(F.simp(d2), F, depth - 1)
    # recurrences of the same family at a constant distance
    if depth > 0:
        recs = [a for a in ats if a.kind == 'rec']
        for a in recs:
            for k in range(max(a.args[1])):
                if F.decide(eq(a.args[0], num(k))) is True:
                    d2 = T.subst(d, {a: unfold_rec(a, num(k))})
                    return zero(F.simp(d2), F, depth - 1)
        for a in recs:
            for b in recs:
                if a is b or a.args[1:] != b.args[1:]:
                    continue
                k = F.simp(a.args[0] - b.args[0]).int_const()
                if k is None or k < min(a.args[1]):
                    continue
                c = le(ZERO, a.args[0])
                for cc, v in ((c, unfold_rec), (c_not(c), lambda x, e: x.args[2](e))):
                    F2 = F.add(cc)
                    if F2.contradictory():
                        continue
                    d2 = T.subst(d, {a: v(a, a.args[0])})
                    if zero(F2.simp(d2), F2, depth - 1) is not True:
                        return None
                return True
        if recs and len(ats) > len(recs):
            # no relation between the remaining values is known: prove it for arbitrary values
            d2 = T.subst(d, {a: from_atom(T.mk_atom('sym', (T.fresh_name('w'), a.sort), a.sort)) for a in recs})
            return zero(F.simp(d2), F, depth)
    # sums whose last terms are zero
    if depth > 0 and any(a.kind == 'sum' for a in ats):
        for a in ats:
            if a.kind == 'sum':
                v = trimmed(a, F)
                if v is not None:
                    return zero(F.simp(T.subst(d, {a: v})), F, depth)
    # linear operators applied to arrays that are elementwise zero
    if depth > 0 and any(a.kind == 'dft' for a in d.atoms()):
        d2 = drop_lin(d, F, depth)
        if d2 is not None:
            return zero(F.simp(d2), F, depth - 1)
    # denominators
    for a in d.atoms():
        if a.kind == 'inv':
            d2 = clear_inv(d, a)
            return zero(F.simp(d2), F, depth)
    # modulus squares
    for a in d.atoms():
        if a.kind == 'cabs':
            r, s = re_im(a.args[0])
            sq = r * r + s * s
            d2 = pow_reduce(d, a, 2, sq)
            if d2 is not None:
                return zero(F.simp(d2), F, depth)
        if a.kind == 'abs':
            d2 = pow_reduce(d, a, 2, a.args[0] * a.args[0])
            if d2 is not None:
                return zero(F.simp(d2), F, depth)
    if d.sort == 'complex' and any(a.kind in ('re', 'im') for a in d.atoms()) :
        r, s = re_im(d)
        if r != d:
            r, s = F.simp(r), F.simp(s)
            if zero(r, F, depth - 1) is True and zero(s, F, depth - 1) is True:
                return True
    return None


def convolution(a):
    """the inverse transform of the product of two transforms of length Q as Q
    times their circular convolution; None if a is something else"""
    if len(a.args[1]) != 1 or len(a.args) != 4:
        return None
    Q, k = a.args[1][0], a.args[3]
    (p,), body = open_lam(a.args[2])
    if len(body.t) != 1:
        return None
    (m, c), = body.t.items()
    if len(m) != 2 or any(e != 1 or b.kind != 'dft' or b.args[0] != -1 or b.args[1] != a.args[1]
                          or b.args[3] != from_atom(p) for b, e in m):
        return None
    x, y = [b.args[2] for b, e in m]
    has = lambda l: any(b.kind == 'sel' for b in T.lam_syms(l))
    if has(y) and not has(x):
        x, y = y, x
    v = T.fresh_atom('v')
    l = from_atom(v)
    q = k - l
    return Q * T.mk_sum(v, ZERO, Q - 1, x(l) * ite(le(ZERO, q), y(q), y(q + Q))).scale(c)


def drop_sums(d, F, depth):
    """d without the groups of sums over the same range whose combined body is zero"""
    groups, rest = {}, ZERO
    for m, c in d.t.items():
        ss = [(a, e) for a, e in m if a.kind == 'sum']
        if not ss:
            rest = rest + Num({m: c})
            continue
        if len(ss) > 1 or ss[0][1] != 1:
            return None
        a = ss[0][0]
        groups.setdefault(a.args[0], []).append((Num({tuple((b, e) for b, e in m if b is not a): c}), a))
    hit = False
    for hi, lst in groups.items():
        ps, body = open_lam(lst[0][1].args[1])
        v = from_atom(ps[0])
        tot = lst[0][0] * body
        for co, a in lst[1:]:
            tot = tot + co * a.args[1](v)
        F2 = F.add(le(ZERO, v), le(v, hi))
        if F2.contradictory() or zero(F2.simp(tot), F2, depth - 1 if len(lst) > 1 else min(depth - 1, 1)) is True:
            hit = True
        else:
            for co, a in lst:
                rest = rest + co * from_atom(a)
    return rest if hit else False


def trimmed(a, F):
    """the sum cut where its terms are zero for the rest of the range"""
    hi = a.args[0]
    (p,), body = open_lam(a.args[1])
    v = from_atom(p)
    cand = []
    for b in T.num_syms(body):
        if b.kind == 'ite':
            for c in T.cond_atoms(b.args[0]):
                if c.k == 'le':
                    co = [(m, x) for m, x in c.a.t.items() if any(y is p for y, e in m)]
                    if len(co) == 1 and co[0][0] == ((p, 1),) and co[0][1] in (1, -1):
                        r = c.a - v.scale(co[0][1])
                        X = -r if co[0][1] == 1 else r - 1
                        if X not in cand and p not in T.num_syms(X):
                            cand.append(X)
    for X in cand:
        if X == hi or F.decide(le(X, hi)) is not True or F.decide(le(hi, X)) is True or F.decide(le(num(-1), X)) is not True:
            continue
        F2 = F.add(le(ZERO, v), le(v, hi), lt(X, v))
        if F2.simp(body).is_zero():
            b2 = F.add(le(ZERO, v), le(v, X)).simp(body)
            return T.mk_sum(p, ZERO, X, b2)
    return None


def unfold_rec(a, E):
    return a.args[3](E, *[from_atom(T.mk_atom('rec', (E - s,) + a.args[1:], a.sort)) for s in a.args[1]])


def lin_groups(d):
    """[(operator, domain sizes, index terms), [(coefficient, atom)]] and the rest
    of a sum that is linear in its linear-operator atoms; None if it is not"""
    groups, rest = {}, ZERO
    for m, c in d.t.items():
        lin = [(a, e) for a, e in m if a.kind == 'dft']
        if not lin:
            rest = rest + Num({m: c})
            continue
        if len(lin) > 1 or lin[0][1] != 1:
            return None, None
        a = lin[0][0]
        co = Num({tuple((b, e) for b, e in m if b is not a): c})
        groups.setdefault((a.args[0], a.args[1]) + a.args[3:], []).append((co, a))
    return groups, rest


def drop_lin(d, F, depth):
    """d without the operator groups whose combined argument is zero"""
    groups, rest = lin_groups(d)
    if not groups:
        return None
    hit = False
    for key, lst in groups.items():
        sizes = key[1]
        ps, body = open_lam(lst[0][1].args[2])
        vs = [from_atom(p) for p in ps]
        tot = lst[0][0] * body
        for co, a in lst[1:]:
            tot = tot + co * a.args[2](*vs)
        F2 = F.add(*[c for v, n in zip(vs, sizes) for c in (le(ZERO, v), lt(v, n))])
        if F2.contradictory() or zero(F2.simp(tot), F2, depth) is True:
            hit = True
        else:
            for co, a in lst:
                rest = rest + co * from_atom(a)
    return rest if hit else None


def clear_inv(d, a):
    q = a.args[0]
    mx = 0
    for m in d.t:
        for b, e in m:
            if b is a:
                mx = max(mx, e)
    out = ZERO
    for m, c in d.t.items():
        e = 0
        rest = []
        for b, x in m:
            if b is a:
                e = x
            else:
                rest.append((b, x))
        out = out + Num({tuple(rest): c}) * (q ** (mx - e))
    return out


def pow_reduce(d, a, n, val):
    hit = False
    out = ZERO
    for m, c in d.t.items():
        e = 0
        rest = []
        for b, x in m:
            if b is a:
                e = x
            else:
                rest.append((b, x))
        if e >= n or e <= -n:
            hit = True
            s = 1 if e > 0 else -1
            q, r = divmod(abs(e), n)
            t = Num({tuple(rest): c}) * (val ** (q * s)) * (from_atom(a) ** (r * s))
        else:
            t = Num({m: c})
        out = out + t
    return out if hit else None


def same_atom(a, b, F, depth):
    if a is b:
        return True
    if a.kind != b.kind or len(a.args) != len(b.args) or depth < 0:
        return False
    if a.kind == 'rec':
        if a.args[1] != b.args[1] or equal(a.args[0], b.args[0], F, depth) is not True:
            return False
        for x, y, cs in ((a.args[2], b.args[2], lambda t: [le(t, num(-1)), le(num(-max(a.args[1])), t)]),
                         (a.args[3], b.args[3], lambda t: [le(ZERO, t), le(t, a.args[0])])):
            if x is not y:
                ps, bx = open_lam(x)
                vs = [from_atom(p) for p in ps]
                if equal(bx, y(*vs), F.add(*cs(vs[0])), depth) is not True:
                    return False
        return True
    for x, y in zip(a.args, b.args):
        if not same_arg(x, y, F, depth, a.kind, a):
            return False
    return True


def same_arg(x, y, F, depth, kind=None, a=None):
    if x is y:
        return True
    if type(x) is not type(y):
        return False
    if isinstance(x, Num):
        if x == y:
            return True
        return equal(x, y, F, depth) is True
    if isinstance(x, Lam):
        if x.n != y.n:
            return False
        ps, bx = open_lam(x)
        by = y(*[from_atom(p) for p in ps])
        F2 = F
        if kind in ('sum', 'prod', 'maxf'):
            v = from_atom(ps[0])
            F2 = F.add(le(ZERO, v), le(v, a.args[0]))
        elif kind == 'dft':
            F2 = F.add(*[c for p, n in zip(ps, a.args[1]) for c in (le(ZERO, from_atom(p)), lt(from_atom(p), n))])
        if isinstance(bx, Cond):
            return same_cond(bx, by, F2)
        return equal(bx, by, F2, depth) is True
    if isinstance(x, Cond):
        return same_cond(x, y, F)
    if isinstance(x, Atom):
        return same_atom(x, y, F, depth)
    if isinstance(x, tuple):
        return len(x) == len(y) and all(same_arg(u, v, F, depth) for u, v in zip(x, y))
    return x == y


def same_cond(x, y, F):
    if x is y:
        return True
    return F.add(x).decide(y) is True and F.add(y).decide(x) is True or \
        (F.add(x, c_not(y)).contradictory() and F.add(y, c_not(x)).contradictory())
