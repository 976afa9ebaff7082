"""Hash-consed algebraic terms: Laurent polynomials over interned atoms, and
boolean conditions over them.  These are the values of the static analysis
(value numbering); nothing here executes code of the analysed project."""
from fractions import Fraction
from math import gcd

def Q(n, d=1):
    """rational kept as int when integral"""
    if d == 1:
        if type(n) is int:
            return n
        if isinstance(n, Fraction) and n.denominator == 1:
            return n.numerator
        return n
    return div(n, d)


def div(a, b):
    if type(a) is int and type(b) is int:
        if b == 1:
            return a
        q, r = divmod(a, b)
        return q if r == 0 else Fraction(a, b)
    q = Fraction(a) / b
    return q.numerator if q.denominator == 1 else q


# --------------------------------------------------------------------------
class Atom(object):
    __slots__ = ('id', 'kind', 'args', 'sort', 'opaque', '_syms')
    table = {}
    count = 0

    def __repr__(self):
        return show_atom(self)

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o

    def __lt__(self, o):
        return self.id < o.id


SORT_RANK = {'int': 0, 'real': 1, 'complex': 2}


def mk_atom(kind, args, sort, opaque=False):
    key = (kind, args)
    a = Atom.table.get(key)
    if a is None:
        a = Atom()
        a.id = Atom.count
        Atom.count += 1
        a.kind = kind
        a.args = args
        a.sort = sort
        op = opaque
        if not op:
            for x in args:
                if isinstance(x, (Num, Cond, Lam, Atom)) and x.opaque:
                    op = True
                    break
        a.opaque = op
        a._syms = None
        Atom.table[key] = a
    return a


_fresh = [0]


def fresh_name(prefix):
    _fresh[0] += 1
    return '%s#%d' % (prefix, _fresh[0])


def F(x):
    return Fraction(x)


# --------------------------------------------------------------------------
class Num(object):
    """polynomial: dict mono -> Fraction ; mono = tuple of (Atom, exp) sorted"""
    __slots__ = ('t', '_h', '_op', '_sort', '_atoms', '_syms')

    def __init__(self, t):
        self.t = t
        self._h = None
        self._op = None
        self._sort = None
        self._atoms = None
        self._syms = None

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def __eq__(self, o):
        if self is o:
            return True
        if not isinstance(o, Num):
            return NotImplemented
        return self.t == o.t

    def __ne__(self, o):
        return not self == o

    # -- queries
    @property
    def opaque(self):
        if self._op is None:
            self._op = any(a.opaque for a in self.atoms())
        return self._op

    def atoms(self):
        if self._atoms is None:
            s = {}
            for m in self.t:
                for a, e in m:
                    s[a] = 1
            self._atoms = tuple(sorted(s, key=lambda a: a.id))
        return self._atoms

    @property
    def sort(self):
        if self._sort is None:
            self._sort = _sort_of(self)
        return self._sort

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def const(self):
        """rational constant or None"""
        if not self.t:
            return 0
        if len(self.t) == 1 and () in self.t:
            return self.t[()]
        return None

    def int_const(self):
        c = self.const()
        if c is not None and c.denominator == 1:
            return int(c)
        return None

    def is_zero(self):
        return not self.t

    # -- arithmetic
    def __add__(self, o):
        o = num(o)
        if not o.t:
            return self
        if not self.t:
            return o
        r = dict(self.t)
        for m, c in o.t.items():
            v = r.get(m)
            if v is None:
                r[m] = c
            else:
                v = v + c
                if v == 0:
                    del r[m]
                else:
                    r[m] = v
        return Num(r)
    __radd__ = __add__

    def __neg__(self):
        return Num({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-num(o))

    def __rsub__(self, o):
        return num(o) + (-self)

    def scale(self, c):
        if c == 0:
            return ZERO
        if c == 1:
            return self
        return Num({m: k * c for m, k in self.t.items()})

    def __mul__(self, o):
        o = num(o)
        if not self.t or not o.t:
            return ZERO
        c = o.const()
        if c is not None:
            return self.scale(c)
        c = self.const()
        if c is not None:
            return o.scale(c)
        acc = {}
        special = []
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                r = mono_mul(m1, m2)
                cc = c1 * c2
                if type(r) is tuple:
                    v = acc.get(r, 0) + cc
                    if v == 0:
                        acc.pop(r, None)
                    else:
                        acc[r] = v
                else:
                    special.append(r.scale(cc))
        res = Num(acc)
        for s in special:
            res = res + s
        return res
    __rmul__ = __mul__

    def __truediv__(self, o):
        return self * inverse(num(o))

    def __rtruediv__(self, o):
        return num(o) * inverse(self)

    def __pow__(self, n):
        if isinstance(n, Num):
            n = n.int_const()
        if n < 0:
            return inverse(self) ** (-n)
        r = ONE
        b = self
        while n:
            if n & 1:
                r = r * b
            n >>= 1
            if n:
                b = b * b
        return r

    def __repr__(self):
        return show(self)


def num(x):
    if isinstance(x, Num):
        return x
    if isinstance(x, bool):
        return ONE if x else ZERO
    if isinstance(x, (int, Fraction)):
        return Num({(): Q(x)}) if x != 0 else ZERO
    if isinstance(x, float):
        return fromfloat(x)
    raise TypeError('num(%r)' % (x,))


def fromfloat(x):
    # decimal literal reading: 1e-14 means 10**-14
    return num(Fraction(repr(x)))


ZERO = Num({})
ONE = Num({(): 1})

# the imaginary unit is atom 0
I_ATOM = mk_atom('I', (), 'complex')
I = Num({((I_ATOM, 1),): 1})
PI_ATOM = mk_atom('pi', (), 'real')
PI = Num({((PI_ATOM, 1),): 1})


def from_atom(a):
    return Num({((a, 1),): 1})


def sym(name, sort='int'):
    return from_atom(mk_atom('sym', (name, sort), sort))


def unk(reason, sort='complex'):
    return from_atom(mk_atom('unk', (fresh_name('u'), reason), sort, opaque=True))


def _sort_of(p):
    rank = 0
    for m, c in p.t.items():
        for a, e in m:
            if a.kind == 'I' and e % 2 == 0:
                continue
            r = SORT_RANK[a.sort]
            if e < 0 and r == 0:
                r = 1
            rank = max(rank, r)
    if rank == 0:
        if all(c.denominator == 1 for c in p.t.values()):
            return 'int'
        if _integral(p):
            return 'int'
        return 'real'
    return ('int', 'real', 'complex')[rank]


def _integral(p):
    """integer valued although coefficients are fractions: only via mod atoms
    ((x - mod(x,k))/k) """
    K = 1
    for c in p.t.values():
        K = K * c.denominator // gcd(K, c.denominator)
    # replace mod(r,k) by r where K | k
    q = p
    for a in p.atoms():
        if a.kind == 'mod':
            k = a.args[1].int_const()
            if k is not None and k % K == 0:
                q = subst1(q, a, a.args[0])
    if all(c.denominator == 1 for c in q.t.values()):
        return True
    if K == 2:
        # x*(x+c) products: substitute parities of every plain atom
        return _even_poly(q.scale(2))
    return False


def _even_poly(q):
    """is the integer polynomial q even for every integer assignment?"""
    ats = [a for a in q.atoms()]
    if len(ats) > 5 or any(a.sort != 'int' for a in ats):
        return False
    n = len(ats)
    idx = {a: i for i, a in enumerate(ats)}
    for bits in range(1 << n):
        s = 0
        for m, c in q.t.items():
            if c.denominator != 1:
                return False
            v = int(c)
            for a, e in m:
                if e < 0:
                    return False
                if not (bits >> idx[a]) & 1:
                    v = 0
                    break
            s += v
        if s % 2:
            return False
    return True


# -- monomials ---------------------------------------------------------------
_mm_cache = {}


def mono_mul(m1, m2):
    """tuple, or Num if special reductions apply"""
    if not m1:
        return m2
    if not m2:
        return m1
    k = (m1, m2)
    r = _mm_cache.get(k)
    if r is not None:
        return r
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    r = norm_mono(d)
    _mm_cache[k] = r
    return r


def norm_mono(d):
    coef = 1
    special = False
    e = d.get(I_ATOM)
    if e is not None:
        e %= 4
        if e in (2, 3):
            coef = -coef
            special = True
        if e % 2:
            d[I_ATOM] = 1
        else:
            d.pop(I_ATOM, None)
    extra = None
    nroots = 0
    nip = 0
    for a in d:
        if a.kind == 'sqrt':
            nroots += 1
            if abs(d[a]) > 1:
                nroots += 1
        elif a.kind == 'ipow':
            nip += 1
            if d[a] != 1:
                nip += 1
        elif a.kind == 'mod' and d[a] > 1 and a.args[1] == TWO:
            d[a] = 1
            # idempotent
    if nip > 1:
        tot = ZERO
        for a in [x for x in d if x.kind == 'ipow']:
            tot = tot + a.args[0].scale(d[a])
            del d[a]
        ex = ipow(tot)
        extra = ex if extra is None else extra * ex
    if nroots > 1:
        # sqrt(x)^2 -> x ; sqrt(x)*sqrt(y) kept separately unless exps > 1
        for a in [x for x in d if x.kind == 'sqrt']:
            e = d[a]
            if e in (1,):
                continue
            q, r = divmod(e, 2)
            del d[a]
            if r:
                d[a] = 1
            ex = a.args[0] ** q
            extra = ex if extra is None else extra * ex
        rs = [x for x in d if x.kind == 'sqrt']
        if len(rs) > 1:
            tot = ONE
            for a in rs:
                tot = tot * a.args[0]
                del d[a]
            ex = sqrt_(tot)
            extra = ex if extra is None else extra * ex
    mono = tuple(sorted(((a, e) for a, e in d.items() if e != 0),
                        key=lambda p: p[0].id))
    if extra is None:
        if coef == 1 and not special:
            return mono
        return Num({mono: coef})
    return Num({mono: coef}) * extra


TWO = num(2)
HALF = Num({(): Fraction(1, 2)})


def inverse(q):
    if not q.t:
        return from_atom(mk_atom('divzero', (), 'real', opaque=True))
    c = q.const()
    if c is not None:
        return num(div(1, c))
    if len(q.t) == 1:
        (m, c), = q.t.items()
        r = norm_mono({a: -e for a, e in m})
        r = Num({r: 1}) if type(r) is tuple else r
        return r.scale(div(1, c))
    # common monomial factor
    com = None
    for m in q.t:
        dm = dict(m)
        if com is None:
            com = dm
        else:
            for a in list(com):
                e = min(com[a], dm.get(a, 0)) if a in dm else 0
                if e <= 0:
                    # allow negative common exps
                    if a in dm and com[a] < 0 and dm[a] < 0:
                        com[a] = max(com[a], dm[a])
                    else:
                        del com[a]
                else:
                    com[a] = e
    for a in list(com):
        if a.kind in ('I', 'ipow', 'sqrt', 'mod'):
            del com[a]
    fac = ONE
    if com:
        mono = tuple(sorted(com.items(), key=lambda p: p[0].id))
        inv = tuple((a, -e) for a, e in mono)
        q = q * Num({inv: 1})
        fac = Num({inv: 1})
    lead = lead_coef(q)
    q = q.scale(div(1, lead))
    return fac.scale(div(1, lead)) * from_atom(
        mk_atom('inv', (q,), 'complex' if q.sort == 'complex' else 'real'))


def lead_coef(q):
    k = max(q.t, key=mono_key)
    return q.t[k]


def mono_key(m):
    return (sum(e for a, e in m), tuple((a.id, e) for a, e in m))


# -- constructors of interpreted functions ------------------------------------
def sqrt_(x):
    c = x.const()
    if c is not None and c >= 0:
        from math import isqrt
        a, b = isqrt(c.numerator), isqrt(c.denominator)
        if a * a == c.numerator and b * b == c.denominator:
            return num(Q(a, b))
    # pull rational square content
    if len(x.t) == 1:
        (m, c), = x.t.items()
        # even powers of single atoms are not pulled out (sign unknown)
    return from_atom(mk_atom('sqrt', (x,), 'complex' if x.sort == 'complex' else 'real'))


def abs_(x):
    """absolute value of a real/int term or modulus of a complex one"""
    c = x.const()
    if c is not None:
        return num(abs(c))
    s = x.sort
    if s == 'complex':
        # |c*Z| with rational c
        if len(x.t) == 1:
            (m, c), = x.t.items()
            d = dict(m)
            e = d.pop(I_ATOM, None)
            keep, out = {}, ONE
            for a, e in d.items():
                if a.kind == 'ipow':
                    continue
                if SORT_RANK[a.sort] < 2:
                    out = out * abs_(from_atom(a)) ** e
                else:
                    keep[a] = e
            km = tuple(sorted(keep.items(), key=lambda p: p[0].id))
            out = out.scale(abs(c))
            if not keep:
                return out
            return out * from_atom(mk_atom('cabs', (Num({km: 1}),), 'real'))
        lead = lead_coef(x)
        return from_atom(mk_atom('cabs', (x.scale(div(1, lead)),), 'real')).scale(abs(lead))
    lead = lead_coef(x)
    if s == 'int':
        if lead < 0:
            x = -x
        # |x| >= 0 already?
        if len(x.t) == 1:
            (m, c), = x.t.items()
            if c > 0 and all(a.kind in ('abs', 'cabs', 'mod') for a, e in m):
                return x
            if c != 1:
                return from_atom(mk_atom('abs', (x.scale(div(1, c)),), 'int')).scale(c)
        return from_atom(mk_atom('abs', (x,), 'int'))
    x = x.scale(div(1, lead))
    if len(x.t) == 1:
        (m, c), = x.t.items()
        if all(a.kind in ('abs', 'cabs', 'sqrt', 'pi') for a, e in m):
            return x.scale(abs(lead))
    return from_atom(mk_atom('abs', (x,), 'real')).scale(abs(lead))


def ipow(e):
    """i**e for an integer-valued term e"""
    base = {}
    half = {}
    const = 0
    for m, c in e.t.items():
        if c.denominator != 1:
            return from_atom(mk_atom('ipowx', (e,), 'complex'))
        c = int(c) % 4
        if m == ():
            const += c
            continue
        if c & 1:
            base[m] = 1
        if c & 2:
            half[m] = 1
    res = I ** (const % 4)
    if half:
        res = res * (ONE - mod_(Num(half), TWO).scale(2))
    if base:
        b = Num(base)
        if b.sort != 'int':
            return from_atom(mk_atom('ipowx', (e,), 'complex'))
        res = res * from_atom(mk_atom('ipow', (b,), 'complex'))
    return res


def mod_(p, k):
    """mathematical p mod k (result in [0,k)) for integer terms"""
    kc = k.int_const()
    if kc is not None and kc > 0:
        r = {}
        for m, c in p.t.items():
            if c.denominator != 1:
                if p.sort == 'int':
                    return from_atom(mk_atom('mod', (p, k), 'int'))
                return from_atom(mk_atom('modr', (p, k), 'real'))
            c = c % kc
            if c:
                r[m] = c
        q = Num(r)
        c = q.const()
        if c is not None:
            return q
        if q.sort != 'int':
            return from_atom(mk_atom('modr', (p, k), 'real'))
        if kc == 2:
            # expand into single-atom parities
            acc = ONE
            for m, c in q.t.items():
                term = ONE
                for a, e in m:
                    if a.kind == 'mod' and a.args[1] == TWO:
                        term = term * from_atom(a)
                    elif a.kind == 'abs' and a.sort == 'int' and isinstance(a.args[0], Num):
                        term = term * mod_(a.args[0], TWO)
                    else:
                        term = term * from_atom(mk_atom('mod', (from_atom(a), TWO), 'int'))
                acc = acc * (ONE - term.scale(2))
            return (ONE - acc).scale(Fraction(1, 2))
        if len(q.t) == 1:
            (m, c), = q.t.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].kind == 'mod' \
                    and m[0][0].args[1] == k:
                return q
        return from_atom(mk_atom('mod', (q, k), 'int'))
    return from_atom(mk_atom('mod', (p, k), 'int' if p.sort == 'int' and k.sort == 'int' else 'real'))


def fdiv(p, k):
    """floor division by positive k"""
    kc = k.int_const()
    if kc is not None and kc > 0 and p.sort == 'int':
        return (p - mod_(p, k)).scale(Fraction(1, kc))
    return from_atom(mk_atom('floor', (p / k,), 'int'))


def fn(name, *args, **kw):
    sort = kw.get('sort')
    if sort is None:
        sort = 'complex' if any(isinstance(a, Num) and a.sort == 'complex' for a in args) else 'real'
    return from_atom(mk_atom(name, tuple(args), sort))


def sel(arr, idx, sort='complex'):
    return from_atom(mk_atom('sel', (arr,) + tuple(idx), sort))


def exp_(x):
    if x.is_zero():
        return ONE
    return fn('exp', x)


def re_im(x):
    """split a term into real and imaginary parts (both real terms)"""
    if x.sort != 'complex':
        return x, ZERO
    R, S = ZERO, ZERO
    for m, c in x.t.items():
        r, s = num(c), ZERO
        for a, e in m:
            if SORT_RANK[a.sort] < 2:
                r = r * (from_atom(a) ** e)
                s = s * (from_atom(a) ** e)
                continue
            if a.kind == 'I':
                ar, ai = ZERO, ONE
            elif a.kind == 'ite':
                (r1, i1), (r2, i2) = re_im(a.args[1]), re_im(a.args[2])
                ar, ai = ite(a.args[0], r1, r2), ite(a.args[0], i1, i2)
            elif a.kind == 'sum':
                ps, bd = open_lam(a.args[1])
                (r1, i1) = re_im(bd)
                ar = mk_sum(ps[0], ZERO, a.args[0], r1)
                ai = mk_sum(ps[0], ZERO, a.args[0], i1)
            elif a.kind == 'sel' or a.kind == 'fft':
                ar = from_atom(mk_atom('re', (a,), 'real', a.opaque))
                ai = from_atom(mk_atom('im', (a,), 'real', a.opaque))
            else:
                ar = from_atom(mk_atom('re', (a,), 'real', a.opaque))
                ai = from_atom(mk_atom('im', (a,), 'real', a.opaque))
            if e < 0:
                den = inverse(ar * ar + ai * ai)
                ar, ai = ar * den, -ai * den
                e = -e
            for _ in range(e):
                r, s = r * ar - s * ai, r * ai + s * ar
        R = R + r
        S = S + s
    return R, S


def conj_(x):
    r, i = re_im(x)
    return r - I * i


def part_form(x):
    """re(z), im(z) written with z and its conjugate, everywhere inside x"""
    def fn(a):
        if a.kind in ('re', 'im') and isinstance(a.args[0], Atom):
            z = from_atom(a.args[0])
            c = from_atom(mk_atom('conj', (a.args[0],), 'complex', a.opaque))
            return (z + c).scale(Fraction(1, 2)) if a.kind == 're' else (c - z).scale(Fraction(1, 2)) * I
        return None
    return map_atoms(x, fn)


_kind_cache = {}


def kinds_in(x):
    """kinds of the atoms anywhere inside x"""
    if isinstance(x, Atom):
        r = _kind_cache.get(x)
        if r is None:
            r = frozenset([x.kind]).union(*[kinds_in(y) for y in x.args])
            _kind_cache[x] = r
        return r
    if isinstance(x, Num):
        return frozenset().union(*[kinds_in(a) for a in x.atoms()])
    if isinstance(x, Cond):
        r = _kind_cache.get(x)
        if r is None:
            if x.k in ('T', 'F'):
                r = frozenset()
            elif x.k in ('and', 'or'):
                r = frozenset().union(*[kinds_in(y) for y in x.a])
            else:
                r = kinds_in(x.a)
            _kind_cache[x] = r
        return r
    if isinstance(x, Lam):
        return kinds_in(x.body)
    if isinstance(x, tuple):
        return frozenset().union(*[kinds_in(y) for y in x])
    return frozenset()


def has_kind(x, kinds):
    return bool(kinds_in(x) & frozenset(kinds))


def combine_parts(x):
    """the real and imaginary parts of the same quantities put together again"""
    if x.sort != 'complex' or not has_kind(x, ('re', 'im')):
        return x
    y = part_form(x)
    return x if has_kind(y, ('conj',)) else y


# -- conditions ---------------------------------------------------------------
class Cond(object):
    __slots__ = ('k', 'a', '_h', '_op')
    table = {}

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o

    @property
    def opaque(self):
        if self._op is None:
            k = self.k
            if k in ('le', 'lt', 'eq'):
                self._op = self.a.opaque
            elif k in ('and', 'or'):
                self._op = any(x.opaque for x in self.a)
            elif k == 'not':
                self._op = self.a.opaque
            elif k == 'b':
                self._op = self.a.opaque
            else:
                self._op = False
        return self._op

    def __repr__(self):
        return show_cond(self)


def _mkc(k, a):
    key = (k, a)
    c = Cond.table.get(key)
    if c is None:
        c = Cond()
        c.k = k
        c.a = a
        c._h = hash(key)
        c._op = None
        Cond.table[key] = c
    return c


TRUE = _mkc('T', None)
FALSE = _mkc('F', None)


def cbool(b):
    return TRUE if b else FALSE


def _content(p):
    """positive rational content of coefficients"""
    n, d = 0, 1
    for c in p.t.values():
        n = gcd(n, abs(c.numerator))
        d = d * c.denominator // gcd(d, c.denominator)
    return Q(n, d)


def le0(p):
    """p <= 0"""
    c = p.const()
    if c is not None:
        return cbool(c <= 0)
    if p.sort == 'int':
        # divide by gcd of non-constant coefficients, floor constant
        n, d = 0, 1
        for m, c in p.t.items():
            if m != ():
                n = gcd(n, abs(c.numerator))
                d = d * c.denominator // gcd(d, c.denominator)
        g = Q(n, d)
        q = {m: div(c, g) for m, c in p.t.items() if m != ()}
        qq = Num(q)
        if qq.sort == 'int':
            k = div(p.t.get((), 0), g)
            # q + k <= 0  <=> q + ceil(k) <= 0
            kk = -((-k.numerator) // k.denominator)
            if kk:
                q[()] = kk
            r = Num(q)
            # parity atoms
            return _mkc('le', r)
    if p.sort == 'complex':
        return bcond(fn('cle', p, sort='real'))
    return _mkc('le', p.scale(div(1, _content(p))))


def lt0(p):
    c = p.const()
    if c is not None:
        return cbool(c < 0)
    if p.sort == 'int':
        return le0(p + 1)
    if p.sort == 'complex':
        return bcond(fn('clt', p, sort='real'))
    return _mkc('lt', p.scale(div(1, _content(p))))


def _parity_eq(p):
    """p == 0 for a polynomial in parities that takes two values: one of p == 0, p == c is canonical"""
    ats = []
    for m in p.t:
        for a, e in m:
            if a.kind != 'mod' or a.args[1] != TWO or e != 1:
                return None
            if a not in ats:
                ats.append(a)
    if len(ats) > 4:
        return None
    vals = set()
    for k in range(1 << len(ats)):
        on = set(a for i, a in enumerate(ats) if k >> i & 1)
        vals.add(sum(c for m, c in p.t.items() if all(a in on for a, e in m)))
        if len(vals) > 2:
            return None
    if 0 not in vals:
        return FALSE
    if len(vals) == 1:
        return TRUE
    c = [v for v in vals if v != 0][0]
    if not p.t.get((), 0):
        return c_not(eq0(p - num(c)))
    return None


def eq0(p):
    c = p.const()
    if c is not None:
        return cbool(c == 0)
    if p.sort == 'complex':
        p = combine_parts(p)
        if p.const() is not None:
            return cbool(p.const() == 0)
    p = p.scale(div(1, _content(p)))
    if lead_coef(p) < 0:
        p = -p
    if len(p.t) == 1:
        # monomial: zero iff some factor with positive exponent is zero
        (m, c), = p.t.items()
        fs = [a for a, e in m if e > 0 and a.kind not in ('I', 'ipow', 'pi')]
        if not fs:
            return FALSE
        if len(fs) > 1 or len(fs) != len(m):
            return c_or([eq0(from_atom(a)) for a in fs])
        a = fs[0]
        if a.kind in ('sqrt', 'abs', 'cabs'):
            return eq0(a.args[0])
        p = from_atom(a)
    # parity: mod(x,2) == 1  is  not(mod(x,2) == 0): canonical form eq(mod-1)
    if p.sort == 'int':
        k = p.t.get((), 0)
        n, d = 0, 1
        for m, c in p.t.items():
            if m != ():
                n = gcd(n, abs(c.numerator))
                d = d * c.denominator // gcd(d, c.denominator)
        g = Q(n, d)
        rest = Num({m: div(c, g) for m, c in p.t.items() if m != ()})
        if rest.sort == 'int' and (div(k, g)).denominator != 1:
            return FALSE
        if len(rest.t) > 1:
            r = _parity_eq(p)
            if r is not None:
                return r
        if len(rest.t) == 1:
            (m, c), = rest.t.items()
            if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == 'mod' and \
                    m[0][0].args[1] == TWO:
                v = div(div(-k, g), c)
                if v == 1:
                    return _mkc('eq', rest - 1)
                if v == 0:
                    return _mkc('not', _mkc('eq', rest - 1))
                return FALSE
    return _mkc('eq', p)


def bcond(n):
    """opaque boolean from a term's atom"""
    if isinstance(n, Atom):
        return _mkc('b', n)
    return _mkc('b', n.atoms()[-1])


def c_not(c):
    k = c.k
    if k == 'T':
        return FALSE
    if k == 'F':
        return TRUE
    if k == 'not':
        return c.a
    if k == 'le':
        return lt0(-c.a)
    if k == 'lt':
        return le0(-c.a)
    if k == 'and':
        return c_or([c_not(x) for x in c.a])
    if k == 'or':
        return c_and([c_not(x) for x in c.a])
    return _mkc('not', c)


def c_and(cs):
    s = {}
    for c in cs:
        if c.k == 'F':
            return FALSE
        if c.k == 'T':
            continue
        if c.k == 'and':
            for x in c.a:
                s[x] = 1
        else:
            s[c] = 1
    for c in s:
        if c_not(c) in s:
            return FALSE
    if not s:
        return TRUE
    if len(s) == 1:
        return next(iter(s))
    # absorption: A and (A or B) -> A ; A and (notA or B) -> A and B
    changed = False
    out = {}
    for c in s:
        if c.k == 'or':
            if any(x in s for x in c.a):
                changed = True
                continue
            keep = [x for x in c.a if c_not(x) not in s]
            if len(keep) != len(c.a):
                changed = True
                out[c_or(keep)] = 1
                continue
        out[c] = 1
    if changed:
        return c_and(list(out))
    return _mkc('and', frozenset(out))


def c_or(cs):
    s = {}
    for c in cs:
        if c.k == 'T':
            return TRUE
        if c.k == 'F':
            continue
        if c.k == 'or':
            for x in c.a:
                s[x] = 1
        else:
            s[c] = 1
    for c in s:
        if c_not(c) in s:
            return TRUE
    if not s:
        return FALSE
    if len(s) == 1:
        return next(iter(s))
    changed = False
    out = {}
    for c in s:
        if c.k == 'and':
            if any(x in s for x in c.a):
                changed = True
                continue
            keep = [x for x in c.a if c_not(x) not in s]
            if len(keep) != len(c.a):
                changed = True
                out[c_and(keep)] = 1
                continue
        out[c] = 1
    if changed:
        return c_or(list(out))
    return _mkc('or', frozenset(out))


def le(a, b):
    return le0(num(a) - num(b))


def lt(a, b):
    return lt0(num(a) - num(b))


def eq(a, b):
    return eq0(num(a) - num(b))


def ne(a, b):
    return c_not(eq(a, b))


# -- ite ------------------------------------------------------------------------
def ite(c, a, b):
    if c.k == 'T':
        return a
    if c.k == 'F':
        return b
    if a == b:
        return a
    if c.k == 'not':
        c, a, b = c.a, b, a
    # common additive part is kept outside only when trivially shared
    s = a.sort if SORT_RANK[a.sort] >= SORT_RANK[b.sort] else b.sort
    # nested same-condition
    aa = _ite_branch(a, c, 1)
    bb = _ite_branch(b, c, 2)
    if aa == bb:
        return aa
    return from_atom(mk_atom('ite', (c, aa, bb), s))


def _ite_branch(x, c, which):
    if len(x.t) == 1:
        (m, k), = x.t.items()
        if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == 'ite' and m[0][0].args[0] is c:
            return m[0][0].args[which].scale(k)
    return x



# -- lambda terms ----------------------------------------------------------------
class Lam(object):
    """hash-consed function term  (x1..xn) -> body ; bound variables are
    bv(lv) .. bv(lv+n-1), lv = bound_level of the body before binding, so the
    variables bound by nested binders always have strictly lower levels."""
    __slots__ = ('n', 'lv', 'body', 'bs', '_h', '_syms')
    table = {}

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o

    @property
    def opaque(self):
        return self.body.opaque

    @property
    def sort(self):
        return self.body.sort

    def __call__(self, *args):
        if len(args) != self.n:
            raise TypeError('lam arity')
        if self.n == 0:
            return self.body
        return subst(self.body, dict(zip(self.bs, args)))

    def __repr__(self):
        return '(\\%s. %s)' % (' '.join(b.args[0] for b in self.bs), show_any(self.body))


def mk_lam(params, body):
    """params: Atoms (free symbols) to be bound in body (Num or Cond)"""
    lv = bound_level(body)
    bs = tuple(mk_atom('sym', ('$%d' % (lv + i), p.sort), p.sort) for i, p in enumerate(params))
    if params:
        body = subst(body, dict((p, from_atom(b)) for p, b in zip(params, bs)))
    key = (len(params), bs, body)
    l = Lam.table.get(key)
    if l is None:
        l = Lam()
        l.n = len(params)
        l.lv = lv
        l.bs = bs
        l.body = body
        l._h = hash(key)
        l._syms = None
        Lam.table[key] = l
    return l


def cond_atoms(c):
    """the comparisons inside a condition"""
    if c.k in ('and', 'or'):
        return [y for x in c.a for y in cond_atoms(x)]
    if c.k == 'not':
        return cond_atoms(c.a)
    return [] if c.k in ('T', 'F') else [c]


def lam_syms(l):
    if l._syms is None:
        l._syms = frozenset(_syms_any(l.body))
    return l._syms


def open_lam(l):
    """-> (fresh atoms, body)"""
    ps = [mk_atom('sym', (fresh_name('v'), b.sort), b.sort) for b in l.bs]
    return ps, l(*[from_atom(p) for p in ps])


def subst_lam(l, mp, memo=None):
    if not _touch(lam_syms(l), mp):
        return l
    ps, body = open_lam(l)
    return mk_lam(ps, subst(body, mp))


BINDERS = ('sum', 'prod')
JUNK_ATOM = mk_atom('sym', ('%junk', 'complex'), 'complex')

# -- substitution / traversal -----------------------------------------------------
def atom_syms(a):
    """set of leaf atoms (sym/unk/sel-names not included) reachable"""
    if a._syms is None:
        s = set([a])
        for x in a.args:
            s |= _syms_any(x)
        a._syms = frozenset(s)
    return a._syms


def _syms_any(x):
    if isinstance(x, Num):
        return num_syms(x)
    if isinstance(x, Cond):
        return cond_syms(x)
    if isinstance(x, Lam):
        return lam_syms(x)
    if isinstance(x, Atom):
        return atom_syms(x)
    if isinstance(x, tuple):
        s = set()
        for y in x:
            s |= _syms_any(y)
        return s
    return frozenset()


def num_syms(p):
    if p._syms is None:
        s = set()
        for a in p.atoms():
            s |= atom_syms(a)
        p._syms = frozenset(s)
    return p._syms


def cond_syms(c):
    k = c.k
    if k in ('le', 'lt', 'eq'):
        return num_syms(c.a)
    if k in ('and', 'or'):
        s = set()
        for x in c.a:
            s |= cond_syms(x)
        return s
    if k == 'not':
        return cond_syms(c.a)
    if k == 'b':
        return atom_syms(c.a)
    return frozenset()


def mentions(x, atom):
    if isinstance(x, Num):
        return atom in num_syms(x)
    if isinstance(x, Cond):
        return atom in cond_syms(x)
    return atom in _syms_any(x)


def subst1(p, atom, val):
    return subst(p, {atom: val})


def subst(x, mp, memo=None):
    if memo is None:
        memo = {}
    if isinstance(x, Num):
        return _subst_num(x, mp, memo)
    if isinstance(x, Cond):
        return _subst_cond(x, mp, memo)
    raise TypeError(x)


def _touch(syms, mp):
    for a in mp:
        if a in syms:
            return True
    return False


def _subst_num(p, mp, memo):
    if not _touch(num_syms(p), mp):
        return p
    r = memo.get(p)
    if r is not None:
        return r
    res = ZERO
    for m, c in p.t.items():
        keep = {}
        extra = ONE
        for a, e in m:
            v = _subst_atom(a, mp, memo)
            if v is None:
                keep[a] = e
            else:
                extra = extra * (v ** e)
        mono = tuple(sorted(keep.items(), key=lambda q: q[0].id))
        res = res + Num({mono: c}) * extra
    memo[p] = res
    return res


def _subst_atom(a, mp, memo):
    v = mp.get(a)
    if v is not None:
        return v
    if not _touch(atom_syms(a), mp):
        return None
    r = memo.get(a)
    if r is None:
        if a.kind == 'sel' and isinstance(mp.get(a.args[0]), Lam):
            r = mp[a.args[0]](*[_subst_any(x, mp, memo) for x in a.args[1:]])
            memo[a] = r
            return r
        args = []
        for x in a.args:
            args.append(_subst_any(x, mp, memo))
        r = rebuild(a, args)
        memo[a] = r
    return r


def _subst_any(x, mp, memo):
    if isinstance(x, Num):
        return _subst_num(x, mp, memo)
    if isinstance(x, Cond):
        return _subst_cond(x, mp, memo)
    if isinstance(x, Atom):
        v = _subst_atom(x, mp, memo)
        if v is None:
            return x
        if isinstance(v, Lam):
            return v
        ats = v.atoms()
        if len(v.t) == 1 and len(ats) == 1 and v == from_atom(ats[0]):
            return ats[0]
        return v
    if isinstance(x, tuple):
        return tuple(_subst_any(y, mp, memo) for y in x)
    if isinstance(x, Lam):
        return subst_lam(x, mp)
    return x


def rebuild(a, args):
    k = a.kind
    if k == 'sqrt':
        return sqrt_(args[0])
    if k in ('abs', 'cabs'):
        return abs_(args[0])
    if k == 'ipow':
        return ipow(args[0])
    if k == 'ipowx':
        return ipow(args[0])
    if k == 'mod':
        return mod_(args[0], args[1])
    if k == 'ite':
        return ite(args[0], args[1], args[2])
    if k == 'inv':
        return inverse(args[0])
    if k == 'exp':
        return exp_(args[0])
    if k == 'sum':
        ps, body = open_lam(args[1])
        return mk_sum(ps[0], ZERO, args[0], body)
    if k == 'prod':
        ps, body = open_lam(args[1])
        return mk_prod(ps[0], ZERO, args[0], body)
    if k in ('re', 'im'):
        x = args[0]
        if isinstance(x, Atom):
            x = from_atom(x)
        if isinstance(x, Num):
            r, i = re_im(x)
            return r if k == 're' else i
    if k == 'floor':
        c = args[0].const()
        if c is not None:
            return num(c.numerator // c.denominator)
    if k == 'dft':
        return dft_(args[0], args[1], args[2], args[3:])
    return from_atom(mk_atom(k, tuple(args), a.sort, a.opaque and not any(
        isinstance(x, (Num, Cond)) for x in a.args)))


def _subst_cond(c, mp, memo):
    k = c.k
    if k in ('T', 'F'):
        return c
    r = memo.get(c)
    if r is not None:
        return r
    if k == 'le':
        r = le0(_subst_num(c.a, mp, memo))
    elif k == 'lt':
        r = lt0(_subst_num(c.a, mp, memo))
    elif k == 'eq':
        r = eq0(_subst_num(c.a, mp, memo))
    elif k == 'and':
        r = c_and([_subst_cond(x, mp, memo) for x in c.a])
    elif k == 'or':
        r = c_or([_subst_cond(x, mp, memo) for x in c.a])
    elif k == 'not':
        r = c_not(_subst_cond(c.a, mp, memo))
    elif k == 'b':
        v = _subst_atom(c.a, mp, memo)
        r = c if v is None else bcond(v)
    memo[c] = r
    return r


# -- sums and products -------------------------------------------------------------
# ('sum', hi, Lam): sum over 0..hi
def bv(level):
    return mk_atom('sym', ('$%d' % level, 'int'), 'int')


_bl_cache = {}


def bound_level(x):
    """1 + highest bound-variable level used inside x"""
    r = _bl_cache.get(x)
    if r is not None:
        return r
    lv = 0
    for a in _syms_any(x):
        if a.kind == 'sym' and a.args[0][0] == '$':
            lv = max(lv, int(a.args[0][1:]) + 1)
    _bl_cache[x] = lv
    return lv


def fresh_atom(prefix='v', sort='int'):
    return mk_atom('sym', (fresh_name(prefix), sort), sort)


def dft_(sign, sizes, lam, idx):
    """unnormalised discrete Fourier transform of lam at idx; linear in lam"""
    if isinstance(sign, str):
        # an unspecified linear operator: kept whole
        if isinstance(lam.body, Num) and lam.body.is_zero():
            return ZERO
        return from_atom(mk_atom('dft', (sign, tuple(sizes), lam) + tuple(idx), 'complex'))
    ps, body = open_lam(lam)
    out = ZERO
    for m, c in body.t.items():
        inn, outm = [], []
        for a, e in m:
            (inn if any(p in atom_syms(a) for p in ps) else outm).append((a, e))
        out = out + Num({tuple(outm): c}) * from_atom(mk_atom(
            'dft', (sign, tuple(sizes), mk_lam(ps, Num({tuple(inn): 1}))) + tuple(idx), 'complex'))
    return out


def map_atoms(x, fn, memo=None):
    """rebuild a term bottom-up; fn(atom) -> replacement term or None"""
    if memo is None:
        memo = {}
    if isinstance(x, (Num, Cond, Lam)):
        r = memo.get(x)
        if r is not None:
            return r
    if isinstance(x, Num):
        out = ZERO
        for m, c in x.t.items():
            t = Num({(): c})
            for a, e in m:
                v = map_atoms(a, fn, memo)
                t = t * (v ** e)
            out = out + t
    elif isinstance(x, Atom):
        if x.kind == 'sym':
            r = fn(x)
            return from_atom(x) if r is None else r
        if x.kind == 'sel' and isinstance(x.args[0], Atom) and x.args[0].kind == 'sym':
            args = [x.args[0]] + [map_atoms(y, fn, memo) for y in x.args[1:]]
        else:
            args = [map_atoms(y, fn, memo) for y in x.args]
            args = [y.atoms()[0] if isinstance(o, Atom) and isinstance(y, Num) and len(y.atoms()) == 1
                    and y == from_atom(y.atoms()[0]) else y for o, y in zip(x.args, args)]
        y = x if all(p is q or (not isinstance(p, (tuple, list)) and p == q) for p, q in zip(args, x.args)) else None
        if y is None:
            n = rebuild(x, args)
            ats = n.atoms()
            if len(ats) == 1 and n == from_atom(ats[0]):
                y = ats[0]
            else:
                return n
        r = fn(y)
        return from_atom(y) if r is None else r
    elif isinstance(x, Cond):
        k = x.k
        if k in ('T', 'F'):
            out = x
        elif k == 'le':
            out = le0(map_atoms(x.a, fn, memo))
        elif k == 'lt':
            out = lt0(map_atoms(x.a, fn, memo))
        elif k == 'eq':
            out = eq0(map_atoms(x.a, fn, memo))
        elif k == 'and':
            out = c_and([map_atoms(y, fn, memo) for y in x.a])
        elif k == 'or':
            out = c_or([map_atoms(y, fn, memo) for y in x.a])
        elif k == 'not':
            out = c_not(map_atoms(x.a, fn, memo))
        else:
            out = x
    elif isinstance(x, Lam):
        ps, body = open_lam(x)
        out = mk_lam(ps, map_atoms(body, fn, memo))
    elif isinstance(x, tuple):
        return tuple(map_atoms(y, fn, memo) for y in x)
    else:
        return x
    memo[x] = out
    return out


def mk_sum(var, lo, hi, body):
    """sum_{var=lo}^{hi} body; var an Atom (free in body); empty if hi < lo"""
    if body.is_zero():
        return ZERO
    if not lo.is_zero():
        body = subst(body, {var: from_atom(var) + lo})
        hi = hi - lo
    hc = hi.int_const()
    if hc is not None and hc < 0:
        return ZERO
    if hc is not None and hc <= 3:
        out = ZERO
        for k in range(hc + 1):
            out = out + subst(body, {var: num(k)})
        return out
    out = ZERO
    groups = {}
    for m, c in body.t.items():
        inn, outm = [], []
        for a, e in m:
            (inn if var in atom_syms(a) else outm).append((a, e))
        key = tuple(inn)
        groups[key] = groups.get(key, ZERO) + Num({tuple(outm): c})
    for key, coef in groups.items():
        if not key:
            out = out + coef * count_(hi + 1)
            continue
        if len(key) == 1 and key[0][0] is var and 0 < key[0][1] <= 3 \
                and not any(a.kind == 'pos' for a in hi.atoms()):
            out = out + coef * faulhaber(key[0][1], hi)
            continue
        inner = Num({key: 1})
        out = out + coef * from_atom(mk_atom(
            'sum', (hi, mk_lam([var], inner)),
            'complex' if inner.sort == 'complex' else
            ('int' if inner.sort == 'int' else 'real')))
    return out


def count_(n):
    """number of terms; loops are only ever built with n >= 0 (the front end
    guards the closed form by n >= 0 where that is not implied)"""
    return n


def faulhaber(p, n):
    if p == 1:
        return (n * (n + 1)).scale(Fraction(1, 2))
    if p == 2:
        return (n * (n + 1) * (n.scale(2) + 1)).scale(Fraction(1, 6))
    if p == 3:
        return (n * n * (n + 1) * (n + 1)).scale(Fraction(1, 4))
    raise ValueError


def mk_prod(var, lo, hi, body):
    if not lo.is_zero():
        body = subst(body, {var: from_atom(var) + lo})
        hi = hi - lo
    hc = hi.int_const()
    if hc is not None and hc < 0:
        return ONE
    if var not in num_syms(body):
        if hc is not None:
            return body ** (hc + 1)
        return from_atom(mk_atom('powc', (body, hi + 1), body.sort))
    if hc is not None and hc <= 3:
        out = ONE
        for k in range(hc + 1):
            out = out * subst(body, {var: num(k)})
        return out
    return from_atom(mk_atom('prod', (hi, mk_lam([var], body)),
                             'real' if body.sort != 'complex' else 'complex'))


# -- printing ------------------------------------------------------------------------
def show_atom(a):
    k = a.kind
    if k == 'sym':
        return a.args[0]
    if k == 'I':
        return 'i'
    if k == 'pi':
        return 'pi'
    if k == 'unk':
        return '<?%s>' % (a.args[1],)
    if k == 'sel':
        return '%s[%s]' % (show_any(a.args[0]), ', '.join(show_any(x) for x in a.args[1:]))
    if k == 'ite':
        return '(%s ? %s : %s)' % tuple(show_any(x) for x in a.args)
    if k == 'ipow':
        return 'i^(%s)' % show_any(a.args[0])
    if k == 'mod':
        return '(%s mod %s)' % tuple(show_any(x) for x in a.args)
    return '%s(%s)' % (k, ', '.join(show_any(x) for x in a.args))


def show_any(x):
    if isinstance(x, Num):
        return show(x)
    if isinstance(x, Cond):
        return show_cond(x)
    if isinstance(x, Lam):
        return repr(x)
    if isinstance(x, Atom):
        return show_atom(x)
    if isinstance(x, tuple):
        return '(' + ', '.join(show_any(y) for y in x) + ')'
    return str(x)


def show(p):
    if not p.t:
        return '0'
    out = []
    for m in sorted(p.t, key=lambda m: tuple((a.id, -e) for a, e in m)):
        c = p.t[m]
        fs = []
        for a, e in m:
            s = show_atom(a)
            if e != 1:
                s = '%s^%s' % (s, e if e > 0 else '(%d)' % e)
            fs.append(s)
        body = '*'.join(fs)
        if not body:
            s = str(c)
        elif c == 1:
            s = body
        elif c == -1:
            s = '-' + body
        else:
            s = '%s*%s' % (c, body)
        out.append(s)
    r = out[0]
    for s in out[1:]:
        r += (' - ' + s[1:]) if s.startswith('-') else (' + ' + s)
    return r


def _split_rel(p):
    pos = Num({m: c for m, c in p.t.items() if c > 0})
    neg = Num({m: -c for m, c in p.t.items() if c < 0})
    return show(pos), show(neg)


def show_cond(c):
    k = c.k
    if k == 'T':
        return 'true'
    if k == 'F':
        return 'false'
    if k in ('le', 'lt', 'eq'):
        a, b = _split_rel(c.a)
        return '%s %s %s' % (a, {'le': '<=', 'lt': '<', 'eq': '=='}[k], b)
    if k == 'not':
        if c.a.k == 'eq':
            a, b = _split_rel(c.a.a)
            return '%s != %s' % (a, b)
        return 'not(%s)' % show_cond(c.a)
    if k == 'and':
        return '(' + ' and '.join(sorted(show_cond(x) for x in c.a)) + ')'
    if k == 'or':
        return '(' + ' or '.join(sorted(show_cond(x) for x in c.a)) + ')'
    return show_atom(c.a)
