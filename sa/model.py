"""Interpretations of terms.  Used only to confirm that two terms which the
normaliser could not identify really denote different functions (a separating
valuation of their free symbols), or that a condition is not a consequence of
the facts.  It evaluates terms of the analysis, never code of the project."""
import cmath
import math
import random
import struct
import time
import zlib
from fractions import Fraction
from .terms import *
from . import terms as T


class Opaque(Exception):
    pass


class Undefined(Exception):
    pass


class TooBig(Exception):
    pass


class QC(object):
    """complex number with rational parts"""
    __slots__ = ('real', 'imag')

    def __init__(self, r, i=0):
        self.real, self.imag = Fraction(r), Fraction(i)

    @staticmethod
    def of(x):
        if isinstance(x, QC):
            return x
        if isinstance(x, (int, Fraction)):
            return QC(x)
        raise Opaque('inexact value')

    def __add__(self, o):
        o = QC.of(o)
        return lower(QC(self.real + o.real, self.imag + o.imag))
    __radd__ = __add__

    def __neg__(self):
        return QC(-self.real, -self.imag)

    def __sub__(self, o):
        return self + -QC.of(o)

    def __rsub__(self, o):
        return QC.of(o) + -self

    def __mul__(self, o):
        o = QC.of(o)
        return lower(QC(self.real * o.real - self.imag * o.imag, self.real * o.imag + self.imag * o.real))
    __rmul__ = __mul__

    def inv(self):
        d = self.real ** 2 + self.imag ** 2
        if d == 0:
            raise Undefined()
        return QC(self.real / d, -self.imag / d)

    def __truediv__(self, o):
        return self * QC.of(o).inv()

    def __rtruediv__(self, o):
        return QC.of(o) * self.inv()

    def __pow__(self, e):
        b = self if e >= 0 else self.inv()
        r = QC(1)
        for _ in range(abs(e)):
            r = QC.of(b * r)
        return lower(r)

    def __eq__(self, o):
        if isinstance(o, QC):
            return self.real == o.real and self.imag == o.imag
        return self.imag == 0 and self.real == o

    def __hash__(self):
        return hash((self.real, self.imag))

    def __abs__(self):
        return qsqrt(self.real ** 2 + self.imag ** 2)


class HP(object):
    """high-precision mode: irrational values as rationals good to about 90 digits"""
    on = False
    used = False
    roots = {}
    bits = 320
    eps = Fraction(1, 10 ** 60)


def trim(v):
    if isinstance(v, Fraction) and v.denominator.bit_length() > 2 * HP.bits:
        e = v.numerator.bit_length() - v.denominator.bit_length()
        sh = HP.bits - e
        return Fraction(round(v * (1 << sh)), 1 << sh) if sh > 0 else Fraction(round(v))
    return v


def lower(z):
    if HP.on and isinstance(z, QC):
        z = QC(trim(z.real), trim(z.imag))
    return z.real if z.imag == 0 else z


def qsqrt(v):
    """the rational square root, when there is one"""
    v = Fraction(v)
    if v < 0:
        raise Undefined()
    p, q = math.isqrt(v.numerator), math.isqrt(v.denominator)
    if p * p != v.numerator or q * q != v.denominator:
        if HP.on:
            HP.used = True
            e = v.numerator.bit_length() - v.denominator.bit_length()
            sh = max(0, 2 * HP.bits - e) // 2
            return Fraction(math.isqrt(v.numerator * (1 << 2 * sh) // v.denominator), 1 << sh)
        raise Opaque('inexact root')
    return Fraction(p, q)


def hp_atan_inv(n):
    s, t, k = Fraction(0), Fraction(1, n), 0
    while t > Fraction(1, 1 << 340):
        s += t / (2 * k + 1) * (-1) ** k
        t = trim(t / (n * n))
        k += 1
    return trim(s)


def hp_pi():
    HP.used = True
    if 'pi' not in HP.roots:
        HP.roots['pi'] = trim(4 * (4 * hp_atan_inv(5) - hp_atan_inv(239)))
    return HP.roots['pi']


def hp_root(k, n):
    """exp(2 pi i k / n)"""
    k %= n
    g = math.gcd(k, n)
    k, n = k // g, n // g
    if n == 1:
        return 1
    if n == 2:
        return -1
    if n == 4:
        return QC(0, 1) if k == 1 else QC(0, -1)
    if not HP.on:
        raise Opaque('inexact root of unity')
    HP.used = True
    if (1, n) not in HP.roots:
        x = trim(2 * hp_pi() / n)
        c, s, t, j = Fraction(0), Fraction(0), Fraction(1), 0
        while abs(t) > Fraction(1, 1 << 340):
            if j % 2 == 0:
                c += t * (-1) ** (j // 2)
            else:
                s += t * (-1) ** (j // 2)
            j += 1
            t = trim(t * x / j)
        HP.roots[1, n] = QC(trim(c), trim(s))
    if (k, n) not in HP.roots:
        HP.roots[k, n] = lower(HP.roots[1, n] ** k)
    return HP.roots[k, n]


class Valuation(object):
    def __init__(self, ints, seed, mode=0, budget=400000, scales=None):
        self.ints = dict(ints)
        self.scales = scales        # exact arithmetic; leaf values of these magnitudes
        self.seed = seed
        self.mode = mode
        self.memo = {}
        self.rmemo = {}
        self.leaf = {}
        self.budget = budget

    def leafval(self, key, sort):
        v = self.leaf.get(key)
        if v is not None:
            return v
        r = random.Random('%s|%s|%s' % (self.seed, self.mode, repr(key)))
        if sort == 'int':
            v = r.randint(-4, 6)
        elif sort == 'bool':
            v = r.random() < 0.5
        elif self.scales is not None:
            def part():
                c = r.choice(self.scales) if self.mode != 'y' else self.scales[self.seed % len(self.scales)]
                return Fraction(float(c) * r.choice([0, r.uniform(.1, .9), r.uniform(1.1, 2), 1, r.uniform(-2, -.1)]))
            v = part() if sort == 'real' else lower(QC(part(), part()))
        else:
            if self.mode == 1 and r.random() < 0.35:
                v = 0
            elif self.mode == 2:
                v = Fraction(r.choice([-3, -2, -1, 0, 1, 2, 3]))
            elif self.mode == 3:
                v = r.uniform(-7, 7) if sort == 'real' else complex(r.uniform(-7, 7), r.uniform(-7, 7))
            elif sort == 'real':
                v = r.uniform(-2, 2)
            else:
                v = complex(r.uniform(-2, 2), r.uniform(-2, 2))
        self.leaf[key] = v
        return v


def _simple(v):
    if isinstance(v, Fraction) and v.denominator == 1:
        return int(v)
    return v


def ev(p, V, env=None):
    """value of a Num"""
    if env is None:
        env = {}
    key = None
    if not env or T.bound_level(p) == 0:
        key = p
        r = V.memo.get(key)
        if r is not None:
            return r
    V.budget -= 1
    if V.budget < 0:
        raise TooBig()
    s = 0
    for m, c in p.t.items():
        x = c
        zero = False
        for a, e in m:
            v = eva(a, V, env)
            if e < 0 and v == 0:
                raise Undefined()
            if e == 1:
                x = x * v
            else:
                if isinstance(v, int) and e < 0:
                    v = Fraction(v)
                x = x * v ** e
        s = s + x
    s = _simple(s)
    if key is not None:
        V.memo[key] = s
    return s


def evc(c, V, env=None):
    if env is None:
        env = {}
    k = c.k
    if k == 'T':
        return True
    if k == 'F':
        return False
    if k in ('le', 'lt', 'eq'):
        v = ev(c.a, V, env)
        if HP.on and isinstance(v, (QC, Fraction)):
            if isinstance(v, QC) and abs(v.imag) < HP.eps:
                v = v.real
            if isinstance(v, Fraction) and abs(v) < HP.eps:
                v = 0
        if isinstance(v, QC):
            if k == 'eq':
                return v == 0
            raise Undefined()
        if k == 'eq':
            if isinstance(v, (int, Fraction)):
                return v == 0
            return abs(v) < 1e-12
        if isinstance(v, complex):
            if abs(v.imag) > 1e-12:
                raise Undefined()
            v = v.real
        if isinstance(v, (int, Fraction)):
            return v <= 0 if k == 'le' else v < 0
        if abs(v) < 1e-12:
            return k == 'le'
        return v < 0
    if k == 'and':
        und = None
        for x in c.a:
            try:
                if not evc(x, V, env):
                    return False
            except (Undefined, Opaque) as e:
                und = e
        if und:
            raise und
        return True
    if k == 'or':
        und = None
        for x in c.a:
            try:
                if evc(x, V, env):
                    return True
            except (Undefined, Opaque) as e:
                und = e
        if und:
            raise und
        return False
    if k == 'not':
        return not evc(c.a, V, env)
    if k == 'b':
        a = c.a
        if a.kind == 'sym':
            return bool(V.leafval(('b', a.args[0]), 'bool'))
        raise Opaque(show_cond(c))
    raise Opaque(k)


def toint(v):
    if isinstance(v, complex):
        v = v.real
    if isinstance(v, float):
        r = round(v)
        if abs(v - r) > 1e-9:
            raise Undefined()
        return int(r)
    if isinstance(v, Fraction):
        if v.denominator != 1:
            raise Undefined()
        return int(v)
    return int(v)


def floorv(v):
    if isinstance(v, complex):
        v = v.real
    if isinstance(v, float):
        r = round(v)
        if abs(v - r) < 1e-9:
            return int(r)
        return math.floor(v)
    return math.floor(v)


def evx(x, V, env):
    if isinstance(x, Num):
        return ev(x, V, env)
    if isinstance(x, Cond):
        return evc(x, V, env)
    raise Opaque('arg')


def lamcall(l, args, V, env):
    e2 = dict(env)
    for b, v in zip(l.bs, args):
        e2[b] = v
    if isinstance(l.body, Cond):
        return evc(l.body, V, e2)
    return ev(l.body, V, e2)


INEXACT = {'pi', 'exp', 'sin', 'cos', 'log', 'tan', 'powc', 'pyfn', 'cmaxf', 'cminf', 'maxf', 'minf', 'loop', 'trip'}

INEXACT_HP = {'exp', 'sin', 'cos', 'log', 'tan', 'powc', 'cmaxf', 'cminf', 'loop', 'trip'}
_yhp = {}


def eva(a, V, env):
    k = a.kind
    if V.scales is not None:
        if k in (INEXACT_HP if HP.on else INEXACT):
            raise Opaque('inexact ' + k)
        if k == 'pi':
            return hp_pi()
        if k == 'pyfn' and a.args[0] == 'ynu':
            HP.used = True
            return _ynu(*[toint(ev(x, V, env)) for x in a.args[1:]], sqrt=qsqrt, table=_yhp)
        if k == 'I':
            return QC(0, 1)
        if k == 'sqrt':
            v = ev(a.args[0], V, env)
            if isinstance(v, QC):
                raise Opaque('inexact root')
            return qsqrt(v)
        if k in ('ipow', 'ipowx'):
            return (1, QC(0, 1), -1, QC(0, -1))[toint(ev(a.args[0], V, env)) % 4]
        if k in ('re', 'im'):
            v = evatomarg(a.args[0], V, env)
            return (v.real if k == 're' else v.imag) if isinstance(v, QC) else v if k == 're' else 0
        if k == 'inv':
            v = ev(a.args[0], V, env)
            if v == 0:
                raise Undefined()
            return v.inv() if isinstance(v, QC) else 1 / Fraction(v)
        if k == 'rnd' and a.args[1] == 'f32':
            v = QC.of(evatomarg(a.args[0], V, env))
            return QC(Fraction(f32(float(v.real))), Fraction(f32(float(v.imag))))
        if k == 'rnd':
            try:
                return Fraction(float(('{0:' + a.args[1] + '}').format(float(realof(ev(a.args[0], V, env))))))
            except (ValueError, OverflowError):
                raise Undefined()
    if k == 'sym':
        if a in env:
            return env[a]
        v = V.ints.get(a)
        if v is not None:
            return v
        if a.args[0][0] == '$' or a.args[0][:2] in ('%s', '%c', '%n'):
            raise Opaque('free bound variable')
        return V.leafval(('s', a.args[0]), a.sort)
    if k == 'I':
        return 1j
    if k == 'pi':
        return math.pi
    if k == 'sel':
        arr = a.args[0]
        idx = tuple(ev(x, V, env) for x in a.args[1:])
        if arr in env:
            return env[arr](idx)
        if arr.kind != 'sym' or arr.opaque or arr.args[0][:2] in ('%a', '%b'):
            raise Opaque('array')
        return V.leafval(('a', arr.args[0]) + tuple(toint(i) for i in idx), a.sort)
    if k == 'ite':
        return ev(a.args[1] if evc(a.args[0], V, env) else a.args[2], V, env)
    if k == 'abs' or k == 'cabs':
        return abs(ev(a.args[0], V, env))
    if k == 'sqrt':
        v = ev(a.args[0], V, env)
        if isinstance(v, complex):
            return cmath.sqrt(v)
        if v < 0:
            raise Undefined()
        return math.sqrt(v)
    if k in ('ipow', 'ipowx'):
        return (1, 1j, -1, -1j)[toint(ev(a.args[0], V, env)) % 4]
    if k == 'mod' or k == 'modr':
        p, q = ev(a.args[0], V, env), ev(a.args[1], V, env)
        if q == 0:
            raise Undefined()
        return _simple(p % q)
    if k == 'floor':
        return floorv(ev(a.args[0], V, env))
    if k == 'inv':
        v = ev(a.args[0], V, env)
        if abs(v) < 1e-13:
            raise Undefined()
        return Fraction(1) / v if not isinstance(v, (float, complex)) else 1 / v
    if k == 're':
        v = evatomarg(a.args[0], V, env)
        return v.real if isinstance(v, complex) else v
    if k == 'im':
        v = evatomarg(a.args[0], V, env)
        return v.imag if isinstance(v, complex) else 0
    if k in ('exp', 'sin', 'cos', 'log', 'tan'):
        try:
            return getattr(cmath, k)(ev(a.args[0], V, env))
        except (OverflowError, ValueError):
            raise Undefined()
    if k == 'powc':
        b, e = ev(a.args[0], V, env), ev(a.args[1], V, env)
        try:
            if isinstance(b, int) and isinstance(e, int) and e < 0:
                return Fraction(b) ** e
            return b ** e
        except (ZeroDivisionError, OverflowError):
            raise Undefined()
    if k == 'sum' or k == 'prod' or k == 'maxf':
        hi = toint(ev(a.args[0], V, env))
        if hi > 400:
            raise TooBig()
        s = 0 if k == 'sum' else (1 if k == 'prod' else ev(a.args[2], V, env))
        for i in range(hi + 1):
            v = lamcall(a.args[1], (i,), V, env)
            if k == 'sum':
                s = s + v
            elif k == 'prod':
                s = s * v
            else:
                s = max(realof(s), realof(v))
        return _simple(s)
    if k in ('cmaxf', 'cminf'):
        hi = toint(ev(a.args[0], V, env))
        if hi > 400:
            raise TooBig()
        key = lambda z: (complex(z).real, complex(z).imag)
        s = ev(a.args[2], V, env)
        for i in range(hi + 1):
            v = lamcall(a.args[1], (i,), V, env)
            if (key(v) > key(s)) if k == 'cmaxf' else (key(v) < key(s)):
                s = v
        return s
    if k == 'minf':
        hi = toint(ev(a.args[0], V, env))
        s = ev(a.args[2], V, env)
        for i in range(hi + 1):
            s = min(realof(s), realof(lamcall(a.args[1], (i,), V, env)))
        return s
    if k == 'stk':
        q = toint(ev(a.args[0], V, env))
        n = toint(ev(a.args[1], V, env))
        if n > 400:
            raise TooBig()
        for i in range(n - 1, -1, -1):
            for (st, ln, gd, vl) in reversed(a.args[2]):
                s0 = toint(lamcall(st, (i,), V, env))
                if s0 <= q < s0 + toint(lamcall(ln, (i,), V, env)):
                    if lamcall(gd, (i, q), V, env):
                        return lamcall(vl, (i, q), V, env)
        return ev(a.args[3], V, env)
    if k == 'rec':
        t = toint(ev(a.args[0], V, env))
        envk = tuple(sorted((b.id, env[b]) for b in env if not callable(env[b])))
        return _rec(a, t, V, env, envk)
    if k == 'loop':
        return _loop(a, V, env)
    if k == 'trip':
        n = toint(ev(a.args[0], V, env))
        j = 0
        while True:
            if n >= 0 and j >= n:
                return j
            if lamcall(a.args[1], (j,), V, env):
                return j
            j += 1
            if j > 3000:
                raise TooBig()
    if k == 'dft':
        return _dft(a, V, env)
    if k == 'rnd' and a.args[1] == 'f32':
        v = complex(ev(a.args[0], V, env))
        return complex(f32(v.real), f32(v.imag)) if v.imag else f32(v.real)
    if k == 'rnd':
        v = ev(a.args[0], V, env)
        return float(('{0:' + a.args[1] + '}').format(float(realof(v))))
    if k == 'b2n':
        return 1 if evc(a.args[0], V, env) else 0
    if k == 'pyfn':
        return FUNS[a.args[0]](*[toint(ev(x, V, env)) for x in a.args[1:]])
    if k == 'divzero':
        raise Undefined()
    raise Opaque(k)


def f32(x):
    return struct.unpack('f', struct.pack('f', x))[0]


def evatomarg(x, V, env):
    if isinstance(x, Atom):
        return eva(x, V, env)
    return evx(x, V, env)


def realof(v):
    if isinstance(v, QC):
        raise Undefined()
    if isinstance(v, complex):
        if abs(v.imag) > 1e-9 * max(1, abs(v)):
            raise Undefined()
        return v.real
    return v


def _rec(a, t, V, env, envk):
    # ('rec', t, shifts, Lam init(t), Lam step(t, v...))
    if t > 400 or t < -400:
        raise TooBig()
    key = (a.args[1:], t, envk)
    if key in V.rmemo:
        return V.rmemo[key]
    if t < 0:
        v = lamcall(a.args[2], (t,), V, env)
    else:
        vs = tuple(_rec(a, t - s, V, env, envk) for s in a.args[1])
        v = lamcall(a.args[3], (t,) + vs, V, env)
    V.rmemo[key] = v
    return v


def _loop(a, V, env):
    """('loop', comp, count Num | Cond-Lam, inits, steps, idx...)
    inits: Num or Lam ; steps[j]: Lam with parameters (i, state..., idx...)"""
    comp, count, inits, steps = a.args[:4]
    idx = tuple(ev(x, V, env) for x in a.args[4:])
    envk = tuple(sorted((b.id, env[b]) for b in env if not callable(env[b])))
    key = ('L', count, inits, steps, envk)
    if any(callable(env[b]) for b in env):
        key = None
    fin = V.rmemo.get(key) if key is not None else None
    if fin is None:
        state = []
        for x in inits:
            if isinstance(x, Lam):
                state.append(_memofn(x, (), V, env))
            else:
                state.append(ev(x, V, env))
        n = None
        if isinstance(count, Num):
            n = toint(ev(count, V, env))
            if n > 300:
                raise TooBig()
        i = 0
        while True:
            if n is not None:
                if i >= n:
                    break
            else:
                if i > 20000:
                    raise TooBig()
                if not lamcall(count, (i,) + tuple(state), V, env):
                    break
            pre = (i,) + tuple(state)
            new = []
            for x, st in zip(inits, steps):
                if isinstance(x, Lam):
                    new.append(_memofn(st, pre, V, env))
                else:
                    new.append(lamcall(st, pre, V, env))
            state = new
            i += 1
        fin = state
        if key is not None:
            V.rmemo[key] = fin
    r = fin[comp]
    return r(idx) if callable(r) else r


def _memofn(lam, pre, V, env):
    memo = {}

    def f(idx):
        idx = tuple(toint(i) for i in idx)
        r = memo.get(idx)
        if r is None:
            r = lamcall(lam, pre + idx, V, env)
            memo[idx] = r
        return r
    return f


def _linop(name, sz, lam, idx, a, V, env):
    """an unspecified linear operator: weights fixed by name, sizes and index"""
    import itertools
    if any(s < 0 for s in sz):
        raise Undefined()
    pts = list(itertools.product(*[range(s) for s in sz]))
    if len(pts) > 200:
        raise TooBig()
    out = 0
    for q in pts:
        h = zlib.crc32(repr((name, sz, idx, q)).encode())
        if V.scales is not None:
            v = lamcall(lam, q, V, env)
            if v != 0:
                out = out + QC(Fraction((h & 1023) * 2 - 1023, 1400), Fraction(((h >> 10) & 1023) * 2 - 1023, 1400)) * v
            continue
        w = complex((h & 1023) - 511.5, ((h >> 10) & 1023) - 511.5) / 700.0
        out += w * complex(lamcall(lam, q, V, env))
    return out


def _degree(q, N, M):
    """degree n of the mode stored at position q"""
    k, n = 0, q
    if q <= N:
        return q
    q -= N + 1
    for k in range(1, M + 1):
        for _ in (0, 1):
            if q < N - k + 1:
                return q + k
            q -= N - k + 1
    raise Undefined()


_ytab = {}


def _ynu(n, m, k, sqrt=math.sqrt, table=_ytab):
    """Fourier coefficient k of the spherical harmonic (n, m)"""
    m = math.isqrt(m)                # the square of the order
    if m > n or k > n or k < 0:
        return 0
    if n > 150:
        raise TooBig()
    t = table.get((n, m))
    if t is None:
        v = 1 / sqrt(4 * (math.pi if table is _ytab else hp_pi()))
        for q in range(1, n + 1):
            v = trim(v * sqrt(Fraction(2 * q + 1, 8 * q)))
        for q in range(m, n):
            v = trim(v * sqrt(Fraction(n + q + 1, n - q)))
        t = [0 * v] * (n + 3)
        t[n] = v
        for q in range(n - 2, -1, -2):
            c = (n - q - 1) * (n + q + 2) + (n - q - 2) * (n + q + 3) - 4 * m * m
            t[q] = c * t[q + 2]
            if q + 4 <= n:
                t[q] -= (n - q - 3) * (n + q + 4) * t[q + 4]
            t[q] = trim(t[q] / ((n - q) * (n + q + 1)))
        table[n, m] = t
    return t[k]


def _nextq(primes):
    def f(q):
        if q < 1 or q > 10 ** 6:
            raise Undefined()
        while True:
            a = q
            for p in primes:
                while a % p == 0:
                    a //= p
            if a == 1:
                return q
            q += 1
    return f


FUNS = {'degree': _degree, 'ynu': _ynu, 'nextq235': _nextq((2, 3, 5)), 'nextq2357': _nextq((2, 3, 5, 7))}


def _dft(a, V, env):
    # ('dft', sign, sizes tuple, Lam, idx...)
    sign, sizes, lam = a.args[:3]
    idx = [toint(ev(x, V, env)) for x in a.args[3:]]
    sz = [toint(ev(x, V, env)) for x in sizes]
    if isinstance(sign, str):
        return _linop(sign, sz, lam, idx, a, V, env)
    tot = 1
    for s in sz:
        if s <= 0:
            raise Undefined()
        tot *= s
    if tot > 600:
        raise TooBig()
    envk = tuple(sorted((b.id, env[b]) for b in env if not callable(env[b])))
    key = ('D', sign, sizes, lam, envk)
    tab = V.rmemo.get(key)
    if tab is None and V.scales is not None:
        if tot > 80:
            raise TooBig()
        tab = V.rmemo[key] = _dft_exact(sign, sz, lam, V, env)
    if tab is None:
        import itertools
        pts = list(itertools.product(*[range(s) for s in sz]))
        dat = [(q, complex(lamcall(lam, q, V, env))) for q in pts]
        tab = {}
        if len(sz) == 1:
            n = sz[0]
            w = [cmath.exp(sign * 2j * math.pi * k / n) for k in range(n)]
            for (k,) in pts:
                tab[(k,)] = sum(d * w[(k * q[0]) % n] for q, d in dat)
        else:
            n0, n1 = sz
            w0 = [cmath.exp(sign * 2j * math.pi * k / n0) for k in range(n0)]
            w1 = [cmath.exp(sign * 2j * math.pi * k / n1) for k in range(n1)]
            D = dict(dat)
            mid = {}
            for r in range(n0):
                for k in range(n1):
                    mid[r, k] = sum(D[r, c] * w1[(k * c) % n1] for c in range(n1))
            for (k0, k1) in pts:
                tab[k0, k1] = sum(mid[r, k1] * w0[(k0 * r) % n0] for r in range(n0))
        V.rmemo[key] = tab
    q = tuple(idx)
    if q not in tab:
        raise Undefined()
    return tab[q]


def _dft_exact(sign, sz, lam, V, env):
    import itertools
    ws = [[hp_root(sign * k, n) for k in range(n)] for n in sz]
    cur = dict((q, lamcall(lam, q, V, env)) for q in itertools.product(*[range(n) for n in sz]))
    for ax, n in enumerate(sz):
        nxt = {}
        for q in cur:
            acc = 0
            for r in range(n):
                v = cur[q[:ax] + (r,) + q[ax + 1:]]
                if v != 0:
                    acc = acc + v * ws[ax][q[ax] * r % n]
            nxt[q] = acc
        cur = nxt
    return cur


# --------------------------------------------------------------------------
def int_syms(objs):
    out = {}
    for o in objs:
        for a in T._syms_any(o):
            if a.kind == 'sym' and a.sort == 'int' and a.args[0][0] not in '$%':
                out[a] = 1
    return sorted(out, key=lambda a: a.id)


INTKINDS = ('abs', 'mod', 'floor', 'ite', 'inv')


def term_conds(objs, cap=60):
    """atomic conditions inside the terms that mention only free integer symbols"""
    out, seen = [], set()

    def visit(x, depth=0):
        if len(out) >= cap or depth > 60:
            return
        if isinstance(x, (Num, Cond, Atom)):
            if x in seen:
                return
            seen.add(x)
        if isinstance(x, Num):
            for a in x.atoms():
                visit(a, depth + 1)
        elif isinstance(x, Cond):
            if x.k in ('le', 'lt', 'eq') and isinstance(x.a, Num):
                sy = T._syms_any(x)
                if sy and all(a.kind in INTKINDS or a.kind == 'sym' and a.sort == 'int' and a.args[0][0] not in '$%' for a in sy):
                    out.append(x)
                visit(x.a, depth + 1)
            elif isinstance(x.a, (tuple, list, frozenset)):
                for y in (sorted(x.a, key=str) if isinstance(x.a, frozenset) else x.a):
                    visit(y, depth + 1)
            else:
                visit(x.a, depth + 1)
        elif isinstance(x, Atom):
            for y in x.args:
                visit(y, depth + 1)
        elif isinstance(x, Lam):
            visit(x.body, depth + 1)
        elif isinstance(x, (tuple, list)):
            for y in x:
                visit(y, depth + 1)
    for o in objs:
        visit(o)
    return out


def free_ints(c):
    return all(a.kind in INTKINDS or a.kind == 'sym' and a.sort == 'int' and a.args[0][0] not in '$%' for a in T._syms_any(c))


def ite_paths(objs, hi, cap=16, visits=3000):
    """nested choices inside the terms, as conjunctions of conditions on the free integers; those with a
    condition that turns at a large value only"""
    out, seen, left = [], set(), [visits]

    def big(c):
        if c.k in ('and', 'or') or not isinstance(c.a, Num):
            return any(big(y) for y in c.a) if isinstance(c.a, (tuple, list, frozenset)) else isinstance(c.a, Cond) and big(c.a)
        k = abs(Fraction(c.a.t.get((), 0)))
        return bool(c.a.t) and any(m != () and k / abs(Fraction(x)) >= hi - 1 for m, x in c.a.t.items())

    def visit(x, path):
        left[0] -= 1
        if left[0] < 0 or len(out) >= cap:
            return
        if isinstance(x, Num):
            for a in x.atoms():
                visit(a, path)
        elif isinstance(x, Atom):
            if x.kind == 'ite':
                c = x.args[0]
                for side, y in ((c, x.args[1]), (c_not(c), x.args[2])):
                    p = path + ((side,) if free_ints(side) else ())
                    if (y, p) in seen:
                        continue
                    seen.add((y, p))
                    if len(p) > 1 and len(p) > len(path) and any(big(z) for z in p):
                        out.append(p)
                    visit(y, p)
            else:
                for y in x.args:
                    visit(y, path)
        elif isinstance(x, Lam):
            visit(x.body, path)
        elif isinstance(x, (tuple, list)):
            for y in x:
                visit(y, path)
    for o in objs:
        visit(o, ())
    return out


def bound_consts(terms, hi):
    """values next to the constants that bound variables (loop counters, indices) are compared with"""
    out = set()
    for c in conds_and_roundings(terms):
        if isinstance(c, Cond) and c.a.sort == 'int':
            k = c.a.t.get((), 0)
            sy = T._syms_any(c)
            if k and len(c.a.t) == 2 and any(a.kind == 'sym' and a.args[0][0] == '$' for a in sy):
                for m, x in c.a.t.items():
                    if m != ():
                        f = math.floor(abs(Fraction(k) / Fraction(x)))
                        if hi - 2 <= f <= 150:
                            out.update((f - 1, f, f + 1, f + 2, f + 3, f + 4))
    return set(sorted(v for v in out if v > hi)[:18])


def only_ints(x):
    return all(a.kind in INTKINDS or a.kind == 'sym' and (a.sort == 'int' or a.args[0][0] in '$%') for a in T._syms_any(x))


def far_values(conds, lo, hi):
    """values outside lo..hi next to which a condition may change"""
    out = {}
    for c in conds:
        k = Fraction(c.a.t.get((), 0))
        sy = [a for a in T._syms_any(c) if a.kind == 'sym']
        for m, x in c.a.t.items():
            if c.k == 'eq' and m != () and hi < abs(x) <= 1100:     # carries of mixed keys
                for a in sy:
                    out.setdefault(a, set()).update((abs(int(x)) - 1, abs(int(x)), abs(int(x)) + 1))
            if m == () or not k:
                continue
            q = abs(k / Fraction(x))
            cand = {q}
            if sum(e for a, e in m) > 1 or any(a.kind != 'sym' for a, e in m):
                cand |= {Fraction(math.isqrt(int(q))), q / 2}
            for v in cand:
                f = math.floor(v)
                if hi - 1 <= f <= 5000:
                    for a in sy:
                        out.setdefault(a, set()).update([f - 1, f, f + 1, f + 2])
    for c in conds:
        for b in c.a.atoms():           # residues of one symbol
            k = b.args[1].int_const() if b.kind == 'mod' and isinstance(b.args[1], Num) else None
            if k is None or not 4 < k <= 5000:
                continue
            e = b.args[0]
            sy = [a for a in T._syms_any(e) if a.kind == 'sym']
            co = e.t.get(((sy[0], 1),)) if len(sy) == 1 else None
            if co is None or len(e.t) > 2:
                continue
            at = [v for v in range(hi + 1, hi + 2 * k + 2) if (Fraction(co) * v + Fraction(e.t.get((), 0))) % k == 0]
            for v in at[:2]:
                out.setdefault(sy[0], set()).update((v - 1, v, v + 1))
    out = {a: sorted(v for v in vs if not lo <= v <= hi)[:16] for a, vs in out.items()}
    for _ in range(3):
        more = {}
        for c in conds:
            sy = [a for a in T._syms_any(c) if a.kind == 'sym']
            if len(sy) > 1:
                co = {m[0][0]: Fraction(x) for m, x in c.a.t.items() if len(m) == 1 and m[0][1] == 1}
                k = Fraction(c.a.t.get((), 0))
                for a in sy:
                    if a not in out:
                        vs = more.setdefault(a, set())
                        for b in sy:
                            for v in out.get(b, ()):
                                vs.add(v)
                                if a in co and b in co:     # where the condition turns
                                    f = math.floor(-(k + co[b] * v) / co[a])
                                    if hi < f <= 20000:
                                        vs.update((f, f + 1))
        more = {a: vs for a, vs in more.items() if vs}
        if not more:
            break
        out.update((a, sorted(vs)[:8] + sorted(vs)[8:][-12:]) for a, vs in more.items())
    return out


def valuations(facts, terms, limit=60, lo=-3, hi=7, seed=1, maxnodes=60000):
    """yield integer assignments satisfying the facts that are decidable on
    integers (others are checked by the caller): some for each side of the
    atomic conditions occurring in the terms and facts, then random ones"""
    facts = list(facts)
    terms = list(terms)
    syms = int_syms(facts + terms)
    open_ = [f for f in facts if not only_ints(f)]
    facts = [f for f in facts if only_ints(f)]
    terms = terms + open_
    if not syms:
        yield {}
        return
    symset = set(syms)
    rnd = random.Random('vals%s' % (seed,))
    nodes = [0]
    leap = [False]

    def prep(fs):
        fsy = [(f, frozenset(a for a in T._syms_any(f) if a in symset)) for f in fs]
        weight = {a: sum(1 for f, s in fsy if a in s) for a in syms}
        order = sorted(syms, key=lambda a: (-weight[a], a.id))
        return fsy, order

    def find(fsy, order, budget):
        """one random assignment, or None"""
        start = nodes[0]

        def rec(k, asg):
            if k == len(order):
                return dict(asg)
            a = order[k]
            dom = list(range(lo, hi + 1)) + far.get(a, [])
            if leap[0] and a in far:
                dom = far[a] + [-1, 0, 1, 2]
            rnd.shuffle(dom)
            bound = set(asg) | {a}
            chk = [f for f, s in fsy if a in s and s <= bound]
            for f in chk:
                v = solve(f, a, asg, seed)
                if v is not None:
                    dom = v
                    break
            for v in dom:
                nodes[0] += 1
                if nodes[0] > maxnodes or nodes[0] - start > budget:
                    return None
                asg[a] = v
                ok = True
                V = Valuation(asg, seed)
                for f in chk:
                    try:
                        if not evc(f, V):
                            ok = False
                            break
                    except (Opaque, Undefined, TooBig):
                        pass
                if ok:
                    r = rec(k + 1, asg)
                    if r is not None:
                        return r
                del asg[a]
            return None
        return rec(0, {})

    far = far_values(term_conds(terms + facts, 200), lo, hi)
    farset = bound_consts(terms, hi)
    for a in syms if farset else ():
        far[a] = sorted(set(far.get(a, [])) | farset)
    seen = set()

    def fresh(asg):
        key = tuple(asg[a] for a in syms)
        if key in seen:
            return False
        seen.add(key)
        return True
    base = prep(facts)
    first = find(base[0], base[1], maxnodes)
    if first is None:
        return
    fresh(first)
    yield first
    conds = term_conds(terms + facts)
    for c in conds:
        for side in (c, c_not(c)):
            fsy, order = prep(facts + [side])
            for _ in range(2):
                r = find(fsy, order, 1500)
                if r is None:
                    break
                if fresh(r):
                    yield r
    for p in ite_paths(terms, hi):
        fsy, order = prep(facts + list(p))
        for _ in range(3):
            r = find(fsy, order, 3000)
            if r is None:
                break
            if fresh(r):
                yield r
    misses = 0
    while len(seen) < limit + 2 * len(conds) and misses < 60 and nodes[0] < 2 * maxnodes:
        leap[0] = bool(far) and rnd.random() < 0.4
        r = find(base[0], base[1], 1500)
        if r is not None and fresh(r):
            misses = 0
            yield r
        else:
            misses += 1


def solve(f, a, asg, seed):
    """the values of a that an equation linear in a (or in its absolute value) allows, None if it is not one"""
    if not isinstance(f, Cond) or f.k != 'eq' or f.a.sort != 'int' or len(f.a.t) < 3:
        return None
    inside = [x for x in f.a.atoms() if x is not a and a in T._syms_any(from_atom(x))]
    mine = [m for m in f.a.t if any(x is a or x in inside for x, e in m)]
    if len(mine) != 1 or mine[0] not in (((a, 1),), tuple((x, 1) for x in inside)):
        return None
    if inside and not (inside[0].kind == 'abs' and inside[0].args[0] == from_atom(a)):
        return None
    asg = dict(asg)
    asg[a] = 0
    try:
        v = -Fraction(ev(f.a, Valuation(asg, seed))) / Fraction(f.a.t[mine[0]])
    except (Opaque, Undefined, TooBig, TypeError, ValueError):
        return None
    if v.denominator != 1 or abs(v) > 20000:
        return []
    v = int(v)
    return [v] if not inside else [] if v < 0 else [v, -v]


def close(a, b):
    d = abs(a - b)
    if d == 0:
        return True
    if d != d:
        return True
    return d <= 1e-7 * max(1.0, abs(a), abs(b))


def again(gen, few, rounds=8):
    """the assignments of the integers; once more, for other values of the rest, while few did"""
    for k in range(rounds):
        if k and not few():
            return
        for x in gen():
            yield k, x


def separate(t1, t2, F, guard=None, limit=60, seed=1, lo=-3, hi=7, modes=(0, 1, 2), budget=None):
    """a valuation satisfying facts (and guard) where t1 and t2 differ.
    returns (status, info): status 'diff' | 'same' | 'opaque'"""
    conds = list(F.conds if hasattr(F, 'conds') else F)
    if guard is not None:
        conds.append(guard)
    seen = 0
    opq = None
    t0 = time.process_time()
    for k, asg in again(lambda: valuations(conds, [t1, t2], limit=limit, seed=seed, lo=lo, hi=hi), lambda: seen < 8):
        if budget is not None and time.process_time() - t0 > budget:
            break
        for mode in modes if k == 0 else (2, 3):
            V = Valuation(asg, seed * 131 + seen + 7919 * k, mode)
            try:
                if not all(evc(c, V) for c in conds):
                    continue
                a = ev(t1, V)
                b = ev(t2, V)
            except Opaque as e:
                opq = str(e)
                continue
            except (Undefined, TooBig, OverflowError, ZeroDivisionError):
                continue
            seen += 1
            if not close(a, b):
                return 'diff', dict(values=dict((k.args[0], v) for k, v in asg.items()),
                                    got=a, expected=b, mode=mode)
    sc = scales(conds, [t1, t2])
    if sc is not None:
        # thresholds and roundings: rational arithmetic at the scale of the constants, then
        # with irrational values to 90 digits
        rnds = any(isinstance(x, Atom) for x in conds_and_roundings([t1, t2]))
        for hp in (False, True):
            if hp and min(sc) < Fraction(1, 10 ** 30):
                break
            t0 = time.process_time()
            try:
                HP.on = hp
                for asg in valuations(conds, [t1, t2], limit=min(limit, 12), seed=seed, lo=lo, hi=hi):
                    if time.process_time() - t0 > 20:
                        break
                    for k in range(6):
                        V = Valuation(asg, seed * 977 + k, 'y' if hp or k % 2 else 'x', scales=sc)
                        HP.used = False
                        try:
                            if not all(evc(c, V) for c in conds):
                                continue
                            a, b = QC.of(ev(t1, V)), QC.of(ev(t2, V))
                        except (Opaque, Undefined, TooBig, OverflowError, ZeroDivisionError, TypeError):
                            continue
                        seen += 1
                        d = QC.of(a - b)
                        if d == 0 or HP.used and size1(d) < HP.eps:
                            continue
                        if rnds or size1(d) > Fraction(1, 10 ** 9) * max(size1(a), size1(b)):
                            return 'diff', dict(values=dict((k.args[0], v) for k, v in asg.items()), got=approx(a),
                                                expected=approx(b), mode='exact')
            finally:
                HP.on = False
    if seen == 0:
        return 'opaque', opq or 'no model of the facts found'
    return 'same', seen


def size1(z):
    z = QC.of(z)
    return abs(z.real) + abs(z.imag)


def approx(z):
    return complex(float(z.real), float(z.imag))


def conds_and_roundings(objs):
    """the atomic conditions and rounding atoms inside the objects"""
    seen, todo, n = set(), list(objs), 0
    while todo and n < 20000:
        x = todo.pop()
        n += 1
        if isinstance(x, (Num, Cond, Atom)):
            if x in seen:
                continue
            seen.add(x)
        if isinstance(x, Num):
            todo.extend(x.atoms())
        elif isinstance(x, Cond):
            if x.k in ('le', 'lt', 'eq'):
                yield x
            if isinstance(x.a, frozenset):
                todo.extend(sorted(x.a, key=str))
            elif isinstance(x.a, (tuple, list)):
                todo.extend(x.a)
            elif x.a is not None:
                todo.append(x.a)
        elif isinstance(x, Atom):
            if x.kind == 'rnd':
                yield x
            todo.extend(x.args)
        elif isinstance(x, Lam):
            todo.append(x.body)
        elif isinstance(x, (tuple, list)):
            todo.extend(x)


def scales(conds, terms):
    """magnitudes of the real constants the conditions compare with; None when the
    terms have neither such conditions nor roundings"""
    out = set()
    rnd = False
    for x in conds_and_roundings(list(terms) + list(conds)):
        if isinstance(x, Cond):
            if x.k in ('le', 'lt', 'eq') and x.a.sort != 'int':
                c0 = x.a.t.get((), 0)
                for m, c in x.a.t.items():
                    if m != () and c0:
                        q = abs(Fraction(c0) / Fraction(c))
                        if Fraction(10) ** -305 < q < Fraction(10) ** 300:
                            out.add(q)
        else:
            rnd = True
    if not out and not rnd:
        return None
    return sorted(out)[:6] + [Fraction(1)]


def witness(cond, F, limit=80, seed=1, lo=-3, hi=7, modes=(0, 1, 2)):
    """a valuation satisfying the facts and cond"""
    conds = list(F.conds if hasattr(F, 'conds') else F) + [cond]
    seen = 0
    opq = None
    for asg in valuations(conds, [], limit=limit, seed=seed, lo=lo, hi=hi):
        for mode in modes:
            V = Valuation(asg, seed * 131 + seen, mode)
            try:
                if all(evc(c, V) for c in conds):
                    return 'sat', dict(values=dict((k.args[0], v) for k, v in asg.items()), mode=mode)
                seen += 1
            except Opaque as e:
                opq = str(e)
            except (Undefined, TooBig, OverflowError, ZeroDivisionError):
                pass
    if seen == 0 and opq:
        return 'opaque', opq
    return 'none', seen
