"""Abstract values, abstract heap, joins and the loop solver shared by the
Python and the C front end.

The analysis is an abstract interpretation in gated-SSA style: every join
point merges the two abstract states (no enumeration of paths), every loop is
analysed once with symbolic values for what it changes and is then summarised
by a closed form (or by an explicit loop term)."""
from fractions import Fraction
from .terms import *
from . import terms as T
from .facts import Facts, TOP, equal


class AnalysisError(Exception):
    """the analyser itself cannot continue (construct outside its fragment)"""


class PathEnd(Exception):
    """control does not continue past this point on this abstract path"""


# -- values ---------------------------------------------------------------------
class Val(object):
    pass


NUMTY = ('bool', 'int', 'npint', 'float', 'npfloat', 'complex', 'npcomplex')


class NumV(Val):
    __slots__ = ('t', 'ty')

    def __init__(self, t, ty=None):
        t = num(t)
        self.t = t
        if ty is None:
            ty = {'int': 'int', 'real': 'float', 'complex': 'complex'}[t.sort]
        self.ty = ty

    def __repr__(self):
        return 'Num(%s:%s)' % (self.t, self.ty)

    def same(self, o):
        return isinstance(o, NumV) and self.t == o.t and self.ty == o.ty


class BoolV(Val):
    __slots__ = ('c', 'np')

    def __init__(self, c, np=False):
        self.c = c
        self.np = np

    def __repr__(self):
        return 'Bool(%s)' % (self.c,)

    def same(self, o):
        return isinstance(o, BoolV) and self.c is o.c


class StrV(Val):
    """string: parts are python str or ('f', Val, spec, conv)"""
    __slots__ = ('parts',)

    def __init__(self, *parts):
        out = []
        for p in parts:
            if isinstance(p, str) and out and isinstance(out[-1], str):
                out[-1] += p
            elif p != '':
                out.append(p)
        self.parts = tuple(out)

    def const(self):
        if not self.parts:
            return ''
        if len(self.parts) == 1 and isinstance(self.parts[0], str):
            return self.parts[0]
        return None

    def __repr__(self):
        return 'Str(%s)' % (self.parts,)

    def same(self, o):
        return isinstance(o, StrV) and self.const() is not None and self.const() == o.const()


class NoneT(Val):
    def __repr__(self):
        return 'None'

    def same(self, o):
        return o is self


NONE = NoneT()


class EllipsisT(Val):
    def same(self, o):
        return o is self


ELL = EllipsisT()


class UnkV(Val):
    def __init__(self, why=''):
        self.why = why

    def __repr__(self):
        return 'Unk(%s)' % self.why

    def same(self, o):
        return o is self


class UndefV(Val):
    """unbound"""
    def __repr__(self):
        return 'Undef'

    def same(self, o):
        return o is self


UNDEF = UndefV()


class TupleV(Val):
    def __init__(self, items):
        self.items = tuple(items)

    def __repr__(self):
        return 'Tuple%r' % (self.items,)

    def same(self, o):
        return isinstance(o, TupleV) and len(o.items) == len(self.items) and \
            all(same(a, b) for a, b in zip(self.items, o.items))


class SliceV(Val):
    def __init__(self, a, b, s):
        self.start, self.stop, self.step = a, b, s

    def __repr__(self):
        return 'Slice(%r,%r,%r)' % (self.start, self.stop, self.step)

    def same(self, o):
        return isinstance(o, SliceV) and same(self.start, o.start) and same(self.stop, o.stop) \
            and same(self.step, o.step)


class RangeV(Val):
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step     # Num

    def same(self, o):
        return isinstance(o, RangeV) and (self.lo, self.hi, self.step) == (o.lo, o.hi, o.step)


class IterV(Val):
    """lazy iteration adaptor: kind enumerate|zip|reversed|items, parts"""
    def __init__(self, kind, parts, extra=None):
        self.kind, self.parts, self.extra = kind, parts, extra

    def same(self, o):
        return o is self


class Ref(Val):
    """reference to a heap object (list, dict, instance)"""
    __slots__ = ('id',)

    def __init__(self, id):
        self.id = id

    def __repr__(self):
        return 'Ref(%s)' % (self.id,)

    def same(self, o):
        return isinstance(o, Ref) and o.id == self.id


PV = [mk_atom('sym', ('@%d' % i, 'int'), 'int') for i in range(6)]
PVT = [from_atom(a) for a in PV]


class ArrV(Val):
    """view of a buffer: element [p0..pk] is buffer element imap(p)"""
    __slots__ = ('buf', 'imap', 'shape', 'dtype', 'contig')

    def __init__(self, buf, imap, shape, dtype, contig=True):
        self.buf, self.imap, self.shape, self.dtype = buf, tuple(imap), tuple(shape), dtype
        self.contig = contig

    def __repr__(self):
        return 'Arr(%s,%s,%s)' % (self.buf, self.shape, self.dtype)

    def same(self, o):
        return isinstance(o, ArrV) and o.buf == self.buf and o.imap == self.imap \
            and o.shape == self.shape and o.dtype == self.dtype

    def index(self, idx):
        mp = dict(zip(PV, idx))
        return tuple(subst(e, mp) for e in self.imap)


class PhiV(Val):
    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __repr__(self):
        return 'Phi(%s ? %r : %r)' % (self.c, self.a, self.b)

    def same(self, o):
        return isinstance(o, PhiV) and o.c is self.c and same(self.a, o.a) and same(self.b, o.b)


class FuncV(Val):
    def __init__(self, node, module, closure, defaults, kwdefaults, name, cls=None):
        self.node, self.module, self.closure = node, module, closure
        self.defaults, self.kwdefaults, self.name, self.cls = defaults, kwdefaults, name, cls
        self.attrs = None         # heap record of the function's attributes

    def __repr__(self):
        return 'Func(%s)' % self.name

    def same(self, o):
        if o is self:
            return True
        return isinstance(o, FuncV) and o.node is self.node and o.closure == self.closure


class Bound(Val):
    def __init__(self, fn, slf):
        self.fn, self.slf = fn, slf

    def same(self, o):
        return isinstance(o, Bound) and same(o.fn, self.fn) and same(o.slf, self.slf)


class BuiltinV(Val):
    def __init__(self, name, extra=None):
        self.name, self.extra = name, extra

    def __repr__(self):
        return 'Builtin(%s)' % self.name

    def same(self, o):
        return isinstance(o, BuiltinV) and o.name == self.name and o.extra is self.extra


class PropV(Val):
    def __init__(self, get, set=None):
        self.get, self.set = get, set

    def same(self, o):
        return o is self


class StaticV(Val):
    def __init__(self, fn, kind):
        self.fn, self.kind = fn, kind

    def same(self, o):
        return o is self


class ModV(Val):
    """module: internal ones have a heap record under their id"""
    def __init__(self, name, id=None):
        self.name, self.id = name, id

    def __repr__(self):
        return 'Mod(%s)' % self.name

    def same(self, o):
        return isinstance(o, ModV) and o.name == self.name


class ClassV(Val):
    def __init__(self, name, bases, id, exc=None):
        self.name, self.bases, self.id, self.exc = name, bases, id, exc

    def __repr__(self):
        return 'Class(%s)' % self.name

    def same(self, o):
        return o is self or (isinstance(o, ClassV) and o.id == self.id)


class TypeV(Val):
    """builtin type object"""
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'Type(%s)' % self.name

    def same(self, o):
        return isinstance(o, TypeV) and o.name == self.name


class ExcV(Val):
    """exception instance"""
    def __init__(self, cls, args=(), user=None):
        self.cls, self.args, self.user = cls, tuple(args), user

    def __repr__(self):
        return 'Exc(%s)' % self.cls

    def same(self, o):
        return isinstance(o, ExcV) and o.cls == self.cls and len(o.args) == len(self.args) and \
            all(same(a, b) for a, b in zip(self.args, o.args))


class FileV(Val):
    def __init__(self, fid, mode):
        self.fid, self.mode = fid, mode

    def same(self, o):
        return isinstance(o, FileV) and o.fid == self.fid


def same(a, b):
    if a is b:
        return True
    try:
        return a.same(b)
    except AttributeError:
        return False


class SKey(object):
    """symbolic number as a dict key"""
    def __init__(self, t):
        self.t = t

    def __hash__(self):
        return hash(self.t)

    def __eq__(self, o):
        return isinstance(o, SKey) and self.t == o.t

    def __repr__(self):
        return repr(self.t)


# -- heap records --------------------------------------------------------------------
class Rec(object):
    kind = '?'

    def copy(self):
        raise NotImplementedError


class DictRec(Rec):
    """frames, modules, instances, classes, dict objects: name -> Val"""
    def __init__(self, kind, d=None, cls=None):
        self.kind = kind
        self.d = d if d is not None else {}
        self.cls = cls

    def copy(self):
        return DictRec(self.kind, dict(self.d), self.cls)


class ListRec(Rec):
    kind = 'list'

    def __init__(self, segs=(), tag=None):
        # segs: ('one', Val) | ('rep', n Num, i Atom, (segs...))
        self.segs = list(segs)
        self.tag = tag

    def copy(self):
        return ListRec(self.segs, self.tag)


class BufRec(Rec):
    kind = 'buf'

    def __init__(self, shape, content, dtype, origin, extra=None):
        self.shape, self.content, self.dtype, self.origin = tuple(shape), content, dtype, origin
        self.extra = extra

    def copy(self):
        return BufRec(self.shape, self.content, self.dtype, self.origin, self.extra)


class FileRec(Rec):
    kind = 'file'

    def __init__(self, segs=(), name=None):
        self.segs = list(segs)
        self.name = name

    def copy(self):
        return FileRec(self.segs, self.name)


class PhiRec(Rec):
    kind = 'phi'

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def copy(self):
        return self


_ids = [0]


def new_id(p):
    _ids[0] += 1
    return '%s%d' % (p, _ids[0])


class State(object):
    __slots__ = ('heap', 'own', 'path', '_facts', '_fn')

    def __init__(self, heap=None, path=()):
        self.heap = heap if heap is not None else {}
        self.own = set()
        self.path = tuple(path)
        self._facts = None
        self._fn = 0

    def fork(self, *conds):
        s = State(dict(self.heap), self.path)
        self.own = set()
        s._facts, s._fn = self._facts, self._fn
        for c in conds:
            s.assume(c)
        return s

    def assume(self, c):
        if c.k != 'T':
            self.path = self.path + (c,)

    @property
    def F(self):
        if self._facts is None:
            self._facts = TOP
            self._fn = 0
        if self._fn != len(self.path):
            self._facts = self._facts.add(*self.path[self._fn:])
            self._fn = len(self.path)
        return self._facts

    def set_path(self, p):
        self.path = tuple(p)
        self._facts = None

    def get(self, id):
        return self.heap[id]

    def mut(self, id):
        r = self.heap[id]
        if id not in self.own:
            r = r.copy()
            self.heap[id] = r
            self.own.add(id)
        return r

    def new(self, prefix, rec):
        id = new_id(prefix)
        self.heap[id] = rec
        self.own.add(id)
        return id

    def become(self, o):
        self.heap, self.path = o.heap, o.path
        self.own = set()
        self._facts, self._fn = o._facts, o._fn


# -- merging ------------------------------------------------------------------------
def ty_join(a, b):
    if a == b:
        return a
    ia, ib = NUMTY.index(a), NUMTY.index(b)
    return NUMTY[max(ia, ib)]


def merge_val(c, a, b, F=None):
    """c ? a : b"""
    if c.k == 'T':
        return a
    if c.k == 'F':
        return b
    if same(a, b):
        return a
    if isinstance(a, NumV) and isinstance(b, NumV):
        return NumV(ite(c, a.t, b.t), ty_join(a.ty, b.ty))
    if isinstance(a, BoolV) and isinstance(b, BoolV):
        return BoolV(c_or([c_and([c, a.c]), c_and([c_not(c), b.c])]))
    if isinstance(a, TupleV) and isinstance(b, TupleV) and len(a.items) == len(b.items):
        return TupleV([merge_val(c, x, y) for x, y in zip(a.items, b.items)])
    if isinstance(a, SliceV) and isinstance(b, SliceV):
        return SliceV(merge_val(c, a.start, b.start), merge_val(c, a.stop, b.stop),
                      merge_val(c, a.step, b.step))
    if isinstance(a, ArrV) and isinstance(b, ArrV) and a.buf == b.buf and a.dtype == b.dtype \
            and len(a.shape) == len(b.shape):
        return ArrV(a.buf, [ite(c, x, y) for x, y in zip(a.imap, b.imap)],
                    [ite(c, x, y) for x, y in zip(a.shape, b.shape)], a.dtype,
                    a.contig and b.contig)
    if isinstance(a, UnkV):
        return a
    if isinstance(b, UnkV):
        return b
    if isinstance(a, StrV) and isinstance(b, StrV) and len(a.parts) == len(b.parts):
        parts = []
        for x, y in zip(a.parts, b.parts):
            if isinstance(x, str) or isinstance(y, str):
                if x != y:
                    break
                parts.append(x)
            elif x[2:] == y[2:] and isinstance(x[1], NumV) and isinstance(y[1], NumV) and x[1].ty == y[1].ty:
                parts.append((x[0], merge_val(c, x[1], y[1])) + tuple(x[2:]))
            elif x[2:] == y[2:] and same(x[1], y[1]):
                parts.append(x)
            else:
                break
        else:
            return StrV(*parts)
    return PhiV(c, a, b)


def merge_rec(c, a, b):
    if a is b:
        return a
    if isinstance(a, DictRec) and isinstance(b, DictRec):
        d = {}
        for k in list(a.d) + [k for k in b.d if k not in a.d]:
            x, y = a.d.get(k, UNDEF), b.d.get(k, UNDEF)
            d[k] = x if x is y else merge_val(c, x, y)
        return DictRec(a.kind, d, a.cls)
    if isinstance(a, BufRec) and isinstance(b, BufRec):
        return BufRec(a.shape, merge_lam(c, a.content, b.content), a.dtype, a.origin, a.extra)
    if isinstance(a, (ListRec, FileRec)) and type(a) is type(b):
        segs = merge_segs(c, a.segs, b.segs)
        if segs is not None:
            return ListRec(segs) if isinstance(a, ListRec) else FileRec(segs, a.name)
    return PhiRec(c, a, b)


def merge_segs(c, a, b):
    """segment by segment; None when the segments do not correspond"""
    if len(a) != len(b):
        return None
    out = []
    for x, y in zip(a, b):
        if x is y or x[0] == y[0] == 'mu' and x == y:
            out.append(x)
        elif x[0] == y[0] == 'one':
            out.append(('one', merge_val(c, x[1], y[1])))
        else:
            return None
    return out


def merge_lam(c, a, b):
    if a is b:
        return a
    if isinstance(a, tuple):      # two-channel content
        return tuple(merge_lam(c, x, y) for x, y in zip(a, b))
    ps, x = open_lam(a)
    y = b(*[from_atom(p) for p in ps])
    return mk_lam(ps, ite(c, x, y))


def merge_state(c, s1, s2, base):
    """join of the two branch states; base = path before the branch"""
    n = len(base)
    heap = {}
    h1, h2 = s1.heap, s2.heap
    if c.k == 'T':
        return s1
    if c.k == 'F':
        return s2
    for k, r1 in h1.items():
        r2 = h2.get(k)
        if r2 is None or r1 is r2:
            heap[k] = r1
        else:
            heap[k] = merge_rec(c, r1, r2)
    for k, r2 in h2.items():
        if k not in h1:
            heap[k] = r2
    p = list(base)
    nc = c_not(c)
    a1 = [x for x in s1.path[n:] if x is not c]
    a2 = [x for x in s2.path[n:] if x is not nc]
    for x in a1:
        y = c_or([nc, x])
        if y.k != 'T':
            p.append(y)
    for x in a2:
        y = c_or([c, x])
        if y.k != 'T':
            p.append(y)
    return State(heap, p)


# -- substitution in values ------------------------------------------------------------
class Subst(object):
    """substitute terms inside values; objects created inside a loop body are
    re-created (fresh identity) for the requested iteration"""
    def __init__(self, st, mp, fresh_ids=None):
        self.st, self.mp, self.fresh = st, mp, fresh_ids
        self.idmap = {}

    def val(self, v):
        mp = self.mp
        if isinstance(v, NumV):
            t = subst(v.t, mp)
            return v if t is v.t else NumV(t, v.ty)
        if isinstance(v, BoolV):
            return BoolV(subst(v.c, mp))
        if isinstance(v, TupleV):
            return TupleV([self.val(x) for x in v.items])
        if isinstance(v, StrV):
            return StrV(*[p if isinstance(p, str) else (p[0], self.val(p[1])) + tuple(p[2:])
                          for p in v.parts])
        if isinstance(v, SliceV):
            return SliceV(self.val(v.start), self.val(v.stop), self.val(v.step))
        if isinstance(v, RangeV):
            return RangeV(subst(v.lo, mp), subst(v.hi, mp), subst(v.step, mp))
        if isinstance(v, ArrV):
            return ArrV(self.id(v.buf), [subst(x, mp) for x in v.imap],
                        [subst(x, mp) for x in v.shape], v.dtype, v.contig)
        if isinstance(v, Ref):
            return Ref(self.id(v.id))
        if isinstance(v, PhiV):
            return merge_val(subst(v.c, mp), self.val(v.a), self.val(v.b))
        if isinstance(v, Bound):
            return Bound(v.fn, self.val(v.slf))
        return v

    def id(self, i):
        if self.fresh is None or i not in self.fresh:
            return i
        j = self.idmap.get(i)
        if j is None:
            j = new_id(i.rstrip('0123456789'))
            self.idmap[i] = j
            r = self.rec(self.st.heap[i])
            self.st.heap[j] = r
        return j

    def key(self, k):
        if isinstance(k, tuple):
            return tuple(self.key(x) for x in k)
        if isinstance(k, SKey):
            t = subst(k.t, self.mp)
            c = t.int_const()
            return SKey(t) if c is None else c
        return k

    def lam(self, l):
        if isinstance(l, tuple):
            return tuple(self.lam(x) for x in l)
        return subst_lam(l, self.mp)

    def rec(self, r):
        if isinstance(r, DictRec):
            return DictRec(r.kind, dict((self.key(k), self.val(v)) for k, v in r.d.items()), r.cls)
        if isinstance(r, BufRec):
            return BufRec([subst(x, self.mp) for x in r.shape], self.lam(r.content), r.dtype,
                          r.origin, r.extra)
        if isinstance(r, ListRec):
            return ListRec([self.seg(s) for s in r.segs], r.tag)
        if isinstance(r, FileRec):
            return FileRec([self.seg(s) for s in r.segs], r.name)
        if isinstance(r, PhiRec):
            return PhiRec(subst(r.c, self.mp), self.rec(r.a), self.rec(r.b))
        return r

    def seg(self, s):
        if s[0] == 'one':
            return ('one', self.val(s[1]))
        if s[0] != 'rep':
            return s
        return ('rep', subst(s[1], self.mp), s[2], tuple(self.seg(x) for x in s[3]))


# ==================================================================================
# loop solver
# ==================================================================================
def ite_leaves(t, F, guard=(), depth=6):
    """flatten a term into [(conds tuple, leaf)] along its top-level ite"""
    if len(t.t) == 1 and depth > 0:
        (m, c), = t.t.items()
        if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == 'ite':
            a = m[0][0]
            return ite_leaves(a.args[1].scale(c), F, guard + (a.args[0],), depth - 1) + \
                ite_leaves(a.args[2].scale(c), F, guard + (c_not(a.args[0]),), depth - 1)
    return [(guard, t)]


def push_sub(t, old):
    """t - old with the subtraction pushed into a top-level ite"""
    if len(t.t) == 1:
        (m, c), = t.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].kind == 'ite':
            a = m[0][0]
            return ite(a.args[0], push_sub(a.args[1], old), push_sub(a.args[2], old))
    # look for ite atoms whose branches contain old additively
    d = t - old
    if d.is_zero():
        return d
    for m, c in t.t.items():
        if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].kind == 'ite':
            a = m[0][0]
            rest = t - from_atom(a)
            oa = old.atoms()[0]
            if oa not in num_syms(rest) and oa in atom_syms(a):
                return push_sub(ite(a.args[0], a.args[1] + rest, a.args[2] + rest), old)
    return d


def mul_factor(t, mu):
    """t == mu * g with g free of mu -> g else None"""
    out = ZERO
    for m, c in t.t.items():
        d = dict(m)
        if d.get(mu) != 1:
            return None
        del d[mu]
        g = Num({tuple(sorted(d.items(), key=lambda p: p[0].id)): c})
        if mu in num_syms(g):
            return None
        out = out + g
    return out


class LoopSolver(object):
    """n: trip count; i: iteration atom (0-based); F: facts at loop entry plus
    0 <= i < n.   scal: key -> (mu atom, init Num, step Num)
    bufs: key -> (mu atom, ndim, init Lam, step Lam)"""

    def __init__(self, i, n, F0, scal, bufs, pre=None, hold=None):
        self.i, self.n, self.F0 = i, n, F0
        self.iv = from_atom(i)
        self.F = F0.add(le(ZERO, self.iv), le(self.iv, n - 1)) if n is not None else \
            F0.add(le(ZERO, self.iv))
        if hold is not None and hold.k != 'T':
            self.F = self.F.add(hold)
        self.scal = dict(scal)
        self.bufs = dict(bufs)
        self.solved = dict(pre or {})       # mu atom -> Num (free i)  or Lam (free i)
        self.how = {}

    def mus(self):
        s = set(x[0] for k, x in self.scal.items())
        s |= set(x[0] for k, x in self.bufs.items())
        return s - set(self.solved)

    def at(self, x, e):
        """closed form x(i) at iteration e"""
        if isinstance(x, Lam):
            return subst_lam(x, {self.i: e})
        return subst(x, {self.i: e})

    def run(self):
        prog = True
        self.cur_s = dict((k, v[2]) for k, v in self.scal.items())
        self.cur_b = dict((k, v[3]) for k, v in self.bufs.items())
        while prog and self.mus():
            prog = False
            for k, (mu, init, _) in self.scal.items():
                if mu in self.solved:
                    continue
                x = self.try_scalar(k, mu, init)
                if x is not None:
                    self.set(mu, x, k)
                    prog = True
            for k, (mu, nd, init, _) in self.bufs.items():
                if mu in self.solved:
                    continue
                x = self.try_buf(k, mu, nd, init)
                if x is not None:
                    self.set(mu, x, k)
                    prog = True
        left = self.mus()
        if left:
            self.fallback(left)
        return self.solved

    def counters(self):
        """closed forms of the integers that depend on nothing else that changes"""
        self.cur_s = dict((k, v[2]) for k, v in self.scal.items())
        self.cur_b = {}
        prog = True
        while prog:
            prog = False
            for k, (mu, init, _) in self.scal.items():
                if mu in self.solved or mu.sort != 'int':
                    continue
                x = self.try_scalar(k, mu, init)
                if x is not None:
                    self.set(mu, x, k)
                    prog = True
        return self.solved

    def set(self, mu, x, k):
        self.solved[mu] = x
        mp = {mu: x}
        for kk in self.cur_s:
            self.cur_s[kk] = self.F.simp(subst(self.cur_s[kk], mp))
        for kk in self.cur_b:
            self.cur_b[kk] = subst_lam(self.cur_b[kk], mp)

    # -- scalars
    def prev_or(self, f, init):
        """X(i) = i == 0 ? init : f(i-1)"""
        fm = subst(f, {self.i: self.iv - 1})
        if fm == init:
            return fm
        F1 = self.F0.add(eq(self.iv, ZERO))
        f0 = subst(fm, {self.i: ZERO})
        if f0 == init or equal(f0, init, self.F0) is True:
            return fm
        return ite(le(ONE, self.iv), fm, init)

    def try_scalar(self, k, mu, init):
        t = self.F.simp(self.cur_s[k])
        self.cur_s[k] = t
        un = self.mus()
        sy = num_syms(t)
        if any(x in sy for x in un if x is not mu):
            return None
        if mu not in sy:
            self.how[k] = 'last'
            return self.prev_or(t, init)
        if t == from_atom(mu):
            self.how[k] = 'const'
            return init
        d = push_sub(t, from_atom(mu))
        if mu not in num_syms(d):
            self.how[k] = 'sum'
            v = fresh_atom('k')
            g = subst(d, {self.i: from_atom(v)})
            return init + mk_sum(v, ZERO, self.iv - 1, g)
        g = mul_factor(t, mu)
        if g is not None:
            self.how[k] = 'prod'
            v = fresh_atom('k')
            return init * mk_prod(v, ZERO, self.iv - 1, subst(g, {self.i: from_atom(v)}))
        # conditional factor: ite(c, mu*a, mu*b)
        lv = ite_leaves(t, self.F)
        if len(lv) > 1 and all(mu not in cond_syms(c) for gs, _ in lv for c in gs):
            fs = [(gs, ONE if x == from_atom(mu) else mul_factor(x, mu)) for gs, x in lv]
            if all(f is not None for _, f in fs):
                g = fs[-1][1]
                for gs, f in reversed(fs[:-1]):
                    g = ite(c_and(gs), f, g)
                self.how[k] = 'prod'
                v = fresh_atom('k')
                return init * mk_prod(v, ZERO, self.iv - 1, subst(g, {self.i: from_atom(v)}))
        # running maximum
        g = self.max_step(t, mu)
        if g is not None:
            self.how[k] = 'max'
            kind, g = g
            v = fresh_atom('k')
            lam = mk_lam([v], subst(g, {self.i: from_atom(v)}))
            return from_atom(mk_atom(kind, (self.iv - 1, lam, init), 'real'))
        return None

    def max_step(self, t, mu):
        m = from_atom(mu)
        lv = ite_leaves(t, self.F)
        if len(lv) < 2:
            return None
        # build candidate g: value compared with mu ; every leaf is mu or g_j
        # leaves with mu kept: need  g <= mu there
        val = None
        terms = []
        kind = None
        for gs, x in lv:
            if x == m:
                continue
            if mu in num_syms(x):
                return None
            k2 = None
            for c in gs:
                if mu in cond_syms(c):
                    if c.k in ('le', 'lt'):
                        if c.a == (m - x).scale(1) or c.a == (m - x) or _prop(c.a, m - x):
                            k2 = 'maxf'
                        elif _prop(c.a, x - m):
                            k2 = 'minf'
            if k2 is None or (kind and kind != k2):
                return None
            kind = k2
            free = tuple(c for c in gs if mu not in cond_syms(c))
            terms.append((free, x))
        if not terms:
            return None
        # leaves keeping mu must be complements: either selected branch failing the
        # comparison, or a branch with no candidate at all
        keep = [gs for gs, x in lv if x == m]
        BOT = num(-1) * from_atom(mk_atom('sym', ('inf', 'real'), 'real'))
        g = None
        # when no candidate applies the value is unchanged: candidate must then be
        # something never selected; supported only if all mu-free guards cover
        cov = c_or([c_and(f) for f, x in terms])
        if self.F.decide(cov) is True:
            g = terms[-1][1]
            for f, x in reversed(terms[:-1]):
                g = ite(c_and(f), x, g)
            return kind, g
        # not covering: usable when init is a lower bound 0 and candidates >= 0
        g = ZERO
        if kind == 'maxf':
            for f, x in reversed(terms):
                if self.F.decide(le(ZERO, x)) is not True and not _nonneg(x):
                    return None
                g = ite(c_and(f), x, g)
            for k, (mm, init, _) in self.scal.items():
                if mm is mu and init.is_zero():
                    return kind, g
        return None

    # -- buffers
    def try_buf(self, k, mu, nd, init):
        lam = self.cur_b[k]
        ps, t = open_lam(lam)
        qs = [from_atom(p) for p in ps]
        t = self.F.simp(t)
        self.cur_b[k] = mk_lam(ps, t)
        un = self.mus()
        sy = num_syms(t)
        if any(x in sy for x in un if x is not mu):
            return None
        old = sel(mu, qs, t.sort if False else self.bsort(mu))
        oa = old.atoms()[0]
        if t == old:
            self.how[k] = 'const'
            return init
        iq = init(*qs)
        # accumulation
        d = push_sub(self.own_reads(t, mu, qs, old, self.F), old)
        if mu not in num_syms(d):
            self.how[k] = 'accumulate'
            v = fresh_atom('k')
            g = subst(d, {self.i: from_atom(v)})
            # a guard pinning v to one iteration gives a point update
            r = iq + self.sum_pointwise(v, g)
            return mk_lam(ps, r)
        leaves = ite_leaves(t, self.F, (), 12)
        wr = []
        for gs, x in leaves:
            if x == old:
                continue
            gs = tuple(y for c in gs for y in (c.a if c.k == 'and' else (c,)))
            if self.F.add(*gs).contradictory():
                continue
            wr.append((gs, x))
        if not wr:
            self.how[k] = 'const'
            return init
        infos = []
        for gs, x in wr:
            c = c_and(gs)
            if mu in cond_syms(c):
                return None
            s = self.solve_for_i(gs, ps)
            if s is None:
                infos += self.solve_branches(gs, x)
                continue
            infos.append((c, x, s))
        if all(s is not None for c, x, s in infos):
            return self.point_writes(k, mu, ps, qs, old, iq, init, infos)
        st = self.stacked(k, mu, ps, qs, old, iq, init, wr)
        return st

    def own_reads(self, t, mu, qs, old, F):
        """reads that hit the written element itself, under the guards that select it"""
        ats = t.atoms()
        a = ats[0] if len(ats) == 1 and ats[0].kind == 'ite' and t == from_atom(ats[0]) else None
        if a is not None:
            c = a.args[0]
            if mu in cond_syms(c):
                return t
            return ite(c, self.own_reads(a.args[1], mu, qs, old, F.add(c)),
                       self.own_reads(a.args[2], mu, qs, old, F.add(c_not(c))))
        mp = {}
        for b in _find_sel(t, mu):
            if from_atom(b) != old and len(b.args) == len(qs) + 1:
                if all(F.decide(eq(x, y)) is True for x, y in zip(b.args[1:], qs)):
                    mp[b] = old
        return subst(t, mp) if mp else t

    def bsort(self, mu):
        return mu.args[2] if len(mu.args) > 2 else 'complex'

    def sum_pointwise(self, v, g):
        lv = ite_leaves(g, self.F, (), 8)
        nz = [(gs, x) for gs, x in lv if not x.is_zero()]
        if len(nz) == 1:
            gs, x = nz[0]
            gs = [y for c in gs for y in (c.a if c.k == 'and' else (c,))]
            dep = [c for c in gs if v in cond_syms(c)]
            s = None
            for c in dep:
                if c.k == 'eq':
                    s = solve_lin(c.a, v)
                    if s is not None:
                        break
            if s is not None:
                e, side = s
                cc = c_and([subst(c, {v: e}) for c in gs] + [side, le(ZERO, e), le(e, self.iv - 1)])
                return ite(cc, subst(x, {v: e}), ZERO)
            if not dep and gs:
                return ite(c_and(gs), mk_sum(v, ZERO, self.iv - 1, x), ZERO)
        return mk_sum(v, ZERO, self.iv - 1, g)

    def solve_for_i(self, gs, ps):
        """-> (i* term, side condition) or ('last',) when guard does not depend on i"""
        dep = [c for c in gs if self.i in cond_syms(c)]
        if not dep:
            return ('last',)
        for c in dep:
            if c.k == 'eq':
                s = solve_lin(c.a, self.i)
                if s is not None:
                    return s
                s = solve_ite(c.a, self.i, self.F, self.n)
                if s is not None:
                    return s
        return None

    def solve_branches(self, gs, x):
        """the write index is an if-then-else of the iteration: one write per branch"""
        for c in gs:
            if c.k != 'eq' or self.i not in cond_syms(c):
                continue
            for b in c.a.atoms():
                if b.kind == 'ite' and self.i in atom_syms(b):
                    out = []
                    for cc, v in ((b.args[0], b.args[1]), (c_not(b.args[0]), b.args[2])):
                        g2 = tuple(subst(y, {b: v}) if y is c else y for y in gs) + (cc,)
                        s = solve_lin(subst(c.a, {b: v}), self.i)
                        out.append((c_and(g2), x, s))
                    return out
        return [(c_and(gs), x, None)]

    def point_writes(self, k, mu, ps, qs, old, iq, init, infos):
        T_ = fresh_atom('t')
        tv = from_atom(T_)
        cands = []
        for c, x, s in infos:
            if s[0] == 'last':
                e = tv - 1
                cond = c_and([c, le(ONE, tv)])
            else:
                e, side = s
                cond = c_and([subst(c, {self.i: e}), side, le(ZERO, e), le(e, tv - 1)])
            cands.append([cond, e, x])
        # resolve reads of the buffer inside values
        reads = [any(mu in num_syms(x) for c, x, s in infos)]
        if reads[0]:
            r = self.resolve_reads(k, mu, ps, qs, iq, init, infos, cands, T_)
            if r is None:
                return None
            cands = r
        Ft = self.F0.add(le(ZERO, tv), le(tv, self.n)) if self.n is not None else self.F0.add(le(ZERO, tv))
        res = iq
        for j in range(len(cands) - 1, -1, -1):
            cond, e, x = cands[j]
            cs = [cond]
            for l in range(len(cands)):
                if l != j:
                    cl, el, xl = cands[l]
                    both = Ft.add(cond, cl)
                    if both.contradictory():
                        continue
                    r = both.decide(lt(el, e))
                    if r is True:
                        continue
                    cs.append(c_or([c_not(cl), lt(el, e)]))
            cc = c_and(cs)
            xe = subst(x, {self.i: e})
            res = ite(cc, Ft.add(cc).simp(xe), res)
        res = Ft.simp(res)
        self.how[k] = self.how.get(k) or 'point'
        out = mk_lam(ps, res)
        return subst_lam(out, {T_: self.iv})

    def resolve_reads(self, k, mu, ps, qs, iq, init, infos, cands, T_):
        """replace sel(mu, e) inside the written values"""
        new = []
        recs = {}
        for (c, x, s), (cond, e_, x_) in zip(infos, cands):
            Fw = self.F.add(c)
            x2 = x
            shifts = {}
            for a in sorted(_find_sel(x, mu), key=lambda a: a.id):
                idx = a.args[1:]
                if any(ps_ in _bvs(idx) for ps_ in ()):
                    return None
                # (1) not written by any earlier iteration?
                if self.not_written(idx, infos, ps, Fw):
                    x2 = subst(x2, {a: init(*idx)})
                    continue
                # (2) constant iteration distance
                sft = self.shift_of(idx, infos, ps, qs, c, Fw)
                if sft is None:
                    return None
                shifts[a] = sft
            if not shifts:
                new.append([cond, e_, x2])
                continue
            if len(infos) != 1:
                return None
            pos, other = self.pos_of(infos[0], ps, qs)
            if pos is None:
                return None
            tt = fresh_atom('tt')
            sl = tuple(sorted(set(shifts.values())))
            vs = [fresh_atom('u', 'complex' if self.bsort(mu) == 'complex' else self.bsort(mu)) for _ in sl]
            step = x2
            mp = {}
            for a, sh in shifts.items():
                mp[a] = from_atom(vs[sl.index(sh)])
            step = subst(step, mp)
            # the guard of the write pins q_d; express in terms of iteration only
            d = other
            posn = subst(pos, {self.i: from_atom(tt)})
            step = subst(subst(step, {self.i: from_atom(tt)}), {ps[d]: posn})
            ini_idx = [posn if j == d else qs[j] for j in range(len(ps))]
            ini = init(*ini_idx)
            node = from_atom(mk_atom('rec', (e_, sl, mk_lam([tt], ini), mk_lam([tt] + vs, step)),
                                     self.bsort(mu)))
            # guards other than the pinning one must not cut iterations
            rest = [g for g in (c.a if c.k == 'and' else (c,)) if self.i in cond_syms(g)
                    and not (g.k == 'eq' and ps[d] in cond_syms(g))]
            for g in rest:
                if self.F.decide(subst(g, {ps[d]: pos})) is not True:
                    return None
            self.how[k] = 'recurrence'
            new.append([cond, e_, node])
        return new

    def pos_of(self, info, ps, qs):
        c, x, s = info
        for g in (c.a if c.k == 'and' else (c,)):
            if g.k == 'eq' and self.i in cond_syms(g):
                for d, p in enumerate(ps):
                    r = solve_lin(g.a, p)
                    if r is not None and r[1].k == 'T':
                        return r[0], d
        return None, None

    def not_written(self, idx, infos, ps, F):
        """no iteration j < i writes position idx (idx may mention i and q)"""
        j = fresh_atom('j')
        jv = from_atom(j)
        Fj = F.add(le(ZERO, jv), lt(jv, self.iv))
        mp0 = dict(zip(ps, idx))
        for c, x, s in infos:
            cj = subst(subst(c, {self.i: jv}), mp0)
            if Fj.decide(cj) is False:
                continue
            if not Fj.add(cj).contradictory():
                return False
        return True

    def shift_of(self, idx, infos, ps, qs, c, F):
        if len(infos) != 1:
            return None
        pos, d = self.pos_of(infos[0], ps, qs)
        if pos is None:
            return None
        for j in range(len(ps)):
            if j != d and idx[j] != qs[j]:
                return None
        e = subst(idx[d], {ps[d]: pos})
        for s in (1, 2, 3, 4):
            p = subst(pos, {self.i: self.iv - s})
            if p == e or equal(p, e, self.F) is True:
                return s
        return None

    # intervals [base(i), base(i)+len(i)) that advance with i
    def stacked(self, k, mu, ps, qs, old, iq, init, wr):
        if len(ps) != 1:
            return None
        q = ps[0]
        segs = []
        for gs, x in wr:
            lo, hi, rest = None, None, []
            for c in gs:
                cs = c.a if c.k == 'and' else (c,)
                for g in cs:
                    if g.k == 'le':
                        co = lin_coef(g.a, q)
                        if co == -1 and self.i in cond_syms(g):
                            lo = g.a + from_atom(q)
                            continue
                        if co == 1 and self.i in cond_syms(g):
                            hi = -(g.a - from_atom(q))
                            continue
                    rest.append(g)
            if lo is None or hi is None:
                # a point interval
                for g in list(rest):
                    if g.k == 'eq':
                        r = solve_lin(g.a, q)
                        if r is not None and r[1].k == 'T':
                            lo = hi = r[0]
                            rest.remove(g)
                            break
            if lo is None or hi is None:
                return None
            x2 = x
            for a in _find_sel(x, mu):
                if not self.not_written(a.args[1:], [(c_and(g2), None, None) for g2, _ in wr], ps,
                                        self.F.add(*gs)):
                    # same position, written only once (intervals disjoint)?
                    if not (a.args[1] == from_atom(q) and self.disjoint(wr, ps)):
                        return None
                x2 = subst(x2, {a: init(*a.args[1:])})
            g = c_and(rest)
            segs.append((mk_lam([self.i], lo), mk_lam([self.i], hi - lo + 1),
                         mk_lam([self.i, q], g), mk_lam([self.i, q], x2)))
        self.how[k] = 'stacked'
        node = mk_stk(from_atom(q), self.iv, tuple(segs), iq, self.bsort(mu))
        return mk_lam(ps, node)

    def disjoint(self, wr, ps):
        return False

    # -- fallback: explicit loop term
    def fallback(self, left):
        comps = []
        for k, (mu, init, _) in self.scal.items():
            if mu in left:
                comps.append(('s', k, mu, init, self.cur_s[k]))
        for k, (mu, nd, init, _) in self.bufs.items():
            if mu in left:
                comps.append(('b', k, mu, init, self.cur_b[k]))
        params = [self.i] + [c[2] for c in comps]
        inits, steps = [], []
        for kind, k, mu, init, stp in comps:
            inits.append(init)
            if kind == 's':
                steps.append(mk_lam(params, stp))
            else:
                ps, body = open_lam(stp)
                steps.append(mk_lam(params + ps, body))
        inits, steps = tuple(inits), tuple(steps)
        for j, (kind, k, mu, init, stp) in enumerate(comps):
            if kind == 's':
                self.solved[mu] = from_atom(mk_atom(
                    'loop', (j, self.iv, inits, steps), scal_sort(mu, init, stp)))
            else:
                ps, body = open_lam(stp)
                self.solved[mu] = mk_lam(ps, from_atom(mk_atom(
                    'loop', (j, self.iv, inits, steps) + tuple(from_atom(p) for p in ps),
                    self.bsort(mu))))
            self.how[k] = 'loop-term'


def scal_sort(mu, init, stp):
    s = [x for x in (init.sort, stp.sort)]
    return max(s, key=lambda x: SORT_RANK[x])


def _nonneg(x):
    if len(x.t) == 1:
        (m, c), = x.t.items()
        return c > 0 and all(a.kind in ('cabs', 'abs', 'sqrt') or e % 2 == 0 for a, e in m)
    c = x.const()
    return c is not None and c >= 0


def _prop(p, q):
    """p is a positive multiple of q"""
    if not p.t or set(p.t) != set(q.t):
        return False
    r = None
    for m in p.t:
        x = div(p.t[m], q.t[m])
        if r is None:
            r = x
        elif r != x:
            return False
    return r > 0


def lin_coef(p, a):
    """coefficient of atom a in p when p is linear in a, else None (0 if absent)"""
    co = 0
    for m, c in p.t.items():
        d = dict(m)
        if a in d:
            if len(d) == 1 and d[a] == 1:
                co = c
            else:
                return None
        else:
            for b in d:
                if a in atom_syms(b):
                    return None
    return co


def solve_lin(p, a):
    """solve p == 0 for atom a: (term, side condition) or None"""
    co = lin_coef(p, a)
    if not co:
        return None
    rest = p - from_atom(a).scale(co)
    e = (-rest).scale(div(1, co))
    if e.sort == 'int':
        return e, TRUE
    den = 1
    from math import gcd as g_
    for c in e.t.values():
        den = den * c.denominator // g_(den, c.denominator)
    ee = e.scale(den)
    if ee.sort != 'int':
        return None
    return e, eq(mod_(ee, num(den)), ZERO)


def solve_ite(p, a, F, n=None):
    """p contains ite atoms mentioning a: solve each branch within 0 <= a < n;
    the branches must not both have a solution"""
    def rng(e):
        return [le(ZERO, e)] + ([lt(e, n)] if n is not None else [])
    for b in p.atoms():
        if b.kind == 'ite' and a in atom_syms(b):
            c, x, y = b.args
            s1 = solve_lin(subst(p, {b: x}), a) or solve_ite(subst(p, {b: x}), a, F, n)
            s2 = solve_lin(subst(p, {b: y}), a) or solve_ite(subst(p, {b: y}), a, F, n)
            if s1 is None or s2 is None:
                return None
            v1 = c_and([subst(c, {a: s1[0]}), s1[1]] + rng(s1[0]))
            v2 = c_and([subst(c_not(c), {a: s2[0]}), s2[1]] + rng(s2[0]))
            if not F.add(v1, v2).contradictory():
                return None
            return ite(v1, s1[0], s2[0]), c_or([v1, v2])
    return None


def _find_sel(x, mu):
    out = set()
    for a in T._syms_any(x):
        if a.kind == 'sel' and a.args[0] is mu:
            out.add(a)
    return out


def _bvs(idx):
    return ()


# -- stacked selection --------------------------------------------------------------
def mk_stk(q, n, segs, default, sort='complex'):
    return from_atom(mk_atom('stk', (q, n, segs, default), sort))


_stk_mono = {}


def stk_ordered(segs, n, F):
    """intervals of successive (iteration, segment) pairs are disjoint and
    increasing, for all iterations 0 <= j < n"""
    key = (segs, n, F)
    r = _stk_mono.get(key)
    if r is not None:
        return r
    j = fresh_atom('j')
    jv = from_atom(j)
    Fj = F.add(le(ZERO, jv), le(jv, n - 1))
    ok = True
    for (s, l, g, v) in segs:
        if not Fj.holds(le(ZERO, l(jv))):
            ok = False
    for a, b in zip(segs, segs[1:]):
        if ok and not Fj.holds(le(a[0](jv) + a[1](jv), b[0](jv))):
            ok = False
    if ok and not Fj.add(le(jv, n - 2)).holds(le(segs[-1][0](jv) + segs[-1][1](jv), segs[0][0](jv + 1))):
        ok = False
    _stk_mono[key] = ok
    return ok


def stk_candidates(q, n, F):
    ats = []
    for a in num_syms(q):
        if a.kind == 'sym' and a.sort == 'int' and a.args[0][0] != '$':
            ats.append(from_atom(a))
        elif a.kind == 'abs':
            ats.append(from_atom(a))
    ats.sort(key=lambda t: t.atoms()[0].id)
    out = []
    for d in (-1, 0, 1, -2):
        for t in ats:
            out.append(t + d)
    for d in (-1, 0, 1, -2):
        for t in ats:
            if t.atoms()[0].kind != 'abs':
                out.append(-t + d)
    out.append(ZERO)
    out.append(n - 1)
    return out


def simp_stk(a, F):
    """resolve a stacked selection under facts F; None if undetermined"""
    q, n, segs, default = a.args
    q = F.simp(q)
    n = F.simp(n)
    default = F.simp(default)
    if F.holds(le(n, ZERO)):
        return default
    segs_o = segs
    if not stk_ordered(segs, n, F):
        # try the reverse order of segments (same footprint)
        if len(segs) == 2 and stk_ordered((segs[1], segs[0]), n, F):
            segs_o = (segs[1], segs[0])
        else:
            return None
    if F.holds(lt(q, segs_o[0][0](ZERO))):
        return default
    if F.holds(le(segs_o[-1][0](n - 1) + segs_o[-1][1](n - 1), q)):
        return default
    for c in stk_candidates(q, n, F):
        if F.decide(le(ZERO, c)) is not True or F.decide(le(c, n - 1)) is not True:
            continue
        for (s, l, g, v) in segs_o:
            st = s(c)
            if F.holds(le(st, q)) and F.holds(lt(q, st + l(c))):
                gg = g(c, q)
                r = F.decide(gg)
                if r is True:
                    return F.simp(v(c, q))
                if r is False:
                    return default
                return None
    return None
