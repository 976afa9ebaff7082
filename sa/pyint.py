"""Abstract interpreter for the Python part of the project.

Walks the syntax tree of /repo's current sources with abstract values only
(polynomial terms over symbolic sizes and symbolic buffer contents).  Branches
are joined, loops are summarised, calls are analysed in context; nothing of
the project is imported or executed."""
import ast
import builtins as _bi
import os
import string
import sys
from .core import *
from . import terms as T
from . import facts as FA
from .loops import LoopMixin
from .npmodel import NpMixin

sys.setrecursionlimit(20000)

_src_cache = {}


def load_source(path):
    r = _src_cache.get(path)
    if r is None:
        with open(path, 'rb') as f:
            data = f.read()
        r = (ast.parse(data, path), data)
        _src_cache[path] = r
    return r


class Sink(object):
    def __init__(self):
        self.recs = []        # (state, ExcV, site)


class Ctx(object):
    __slots__ = ('fid', 'mod', 'chain', 'returns', 'loops', 'name', 'locs', 'globs', 'nonlocs',
                 'closure', 'cls', 'modname')

    def __init__(self, fid, mod, chain, name, modname, locs=(), globs=(), nonlocs=(), cls=None):
        self.fid, self.mod, self.chain, self.name = fid, mod, chain, name
        self.modname = modname
        self.returns, self.loops = [], []
        self.locs, self.globs, self.nonlocs = locs, globs, nonlocs
        self.closure = False
        self.cls = cls


def assigned_names(body, params=()):
    locs, globs, nonl = set(params), set(), set()

    def tgt(t):
        if isinstance(t, ast.Name):
            locs.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                tgt(e)
        elif isinstance(t, ast.Starred):
            tgt(t.value)

    def walk(n):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            locs.add(n.name)
            for d in n.decorator_list:
                walk(d)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for g in n.generators:
                walk(g.iter)
            return
        if isinstance(n, ast.Global):
            globs.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            nonl.update(n.names)
        elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            locs.add(n.id)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            locs.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                locs.add((a.asname or a.name).split('.')[0])
        for c in ast.iter_child_nodes(n):
            walk(c)
    for s in body:
        walk(s)
    return locs - globs - nonl, globs, nonl


_scope_cache = {}


def fn_scope(node):
    r = _scope_cache.get(node)
    if r is None:
        a = node.args
        ps = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        if a.vararg:
            ps.append(a.vararg.arg)
        if a.kwarg:
            ps.append(a.kwarg.arg)
        body = node.body if isinstance(node.body, list) else [ast.Expr(node.body)]
        r = assigned_names(body, ps)
        _scope_cache[node] = r
    return r


def exc_issub(name, base, interp=None):
    if name == base:
        return True
    a, b = getattr(_bi, name, None), getattr(_bi, base, None)
    if isinstance(a, type) and isinstance(b, type):
        return issubclass(a, b)
    return False


EXC_NAMES = set(n for n in dir(_bi) if isinstance(getattr(_bi, n), type)
                and issubclass(getattr(_bi, n), BaseException))

TYPE_NAMES = ('int', 'float', 'complex', 'bool', 'str', 'list', 'tuple', 'dict', 'object', 'type',
              'slice', 'set', 'frozenset', 'bytes', 'range', 'property', 'staticmethod',
              'classmethod', 'enumerate', 'zip', 'reversed', 'map', 'filter', 'super', 'bytearray')

BUILTIN_FUNCS = ('len', 'abs', 'isinstance', 'min', 'max', 'sum', 'print', 'open', 'getattr',
                 'setattr', 'hasattr', 'round', 'sorted', 'any', 'all', 'repr', 'iter', 'next',
                 'callable', 'issubclass', 'pow', 'divmod', 'id', 'hash', 'format', 'vars', 'chr',
                 'ord', 'globals', 'locals', 'dir', '__import__', 'exec', 'eval')

MAXDEPTH = 60


def has_sym(k):
    return isinstance(k, SKey) or isinstance(k, tuple) and any(has_sym(x) for x in k)


def drop_undef(v, df):
    if isinstance(v, PhiV):
        return merge_val(v.c, drop_undef(v.a, df), drop_undef(v.b, df))
    return df if isinstance(v, UndefV) else v


def defined_cond(v):
    if isinstance(v, UndefV):
        return FALSE
    if isinstance(v, PhiV):
        return c_or([c_and([v.c, defined_cond(v.a)]), c_and([c_not(v.c), defined_cond(v.b)])])
    return TRUE


class Interp(LoopMixin, NpMixin):
    def __init__(self, root='/repo', use_cext=True, mpl=True, native=None):
        self.root = root
        self.cfg = {'use_cext': use_cext, 'mpl': mpl}
        self.native = native
        self.sinks = [Sink()]
        self.oblig = []
        self.quiet = 0
        self.depth = 0
        self.site = ('', '', 0)
        self.mods = {}
        self.unknowns = {}
        self.trace = []           # effect events (rng, print, plot)
        self.functions = set()    # analysed functions (evidence)
        self.stats = {'calls': 0, 'loops': 0, 'branches': 0, 'joins': 0}
        self.sumcache = {}
        self.summaries = {}       # function name -> stand-in (see kern.py)

    # ---------------------------------------------------------------- helpers
    def unknown(self, why):
        if not self.quiet:
            k = '%s (%s:%s)' % (why, self.site[1], self.site[2])
            self.unknowns[k] = self.unknowns.get(k, 0) + 1
        return UnkV(why)

    def raise_if(self, st, c, cls, *args):
        """record the exception on the paths where c holds"""
        c = st.F.reduce(c) if c.k != 'T' else c
        if c.k == 'F':
            return
        exc = cls if isinstance(cls, ExcV) else ExcV(cls, args)
        if c.k == 'T':
            self.sinks[-1].recs.append((st.fork(), exc, self.site))
            raise PathEnd()
        s2 = st.fork(c)
        self.sinks[-1].recs.append((s2, exc, self.site))
        st.assume(c_not(c))

    def do_raise(self, st, exc):
        self.sinks[-1].recs.append((st.fork(), exc, self.site))
        raise PathEnd()

    def decide(self, st, c):
        return st.F.decide(c)

    def branch(self, st, c, f, g):
        """if c: f(st) else g(st); joins; returns merged value"""
        r = self.decide(st, c)
        if r is True:
            st.assume(c)
            return f(st)
        if r is False:
            return g(st)
        self.stats['branches'] += 1
        base = st.path
        s1, s2 = st.fork(c), st.fork(c_not(c))
        v1 = v2 = None
        a1 = a2 = True
        if s1.F.contradictory():
            a1 = False
        else:
            try:
                v1 = f(s1)
            except PathEnd:
                a1 = False
        if s2.F.contradictory():
            a2 = False
        else:
            try:
                v2 = g(s2)
            except PathEnd:
                a2 = False
        if a1 and a2:
            self.stats['joins'] += 1
            st.become(merge_state(c, s1, s2, base))
            if v1 is None or v2 is None:
                return v1 if v2 is None else v2
            return merge_val(c, v1, v2)
        if a1:
            st.become(s1)
            return v1
        if a2:
            st.become(s2)
            return v2
        raise PathEnd()

    def on(self, st, v, fn):
        """apply fn(st, v) under PhiV splitting"""
        if isinstance(v, PhiV):
            return self.branch(st, v.c, lambda s: self.on(s, v.a, fn), lambda s: self.on(s, v.b, fn))
        return fn(st, v)

    def on2(self, st, a, b, fn):
        return self.on(st, a, lambda s, x: self.on(s, b, lambda s2, y: fn(s2, x, y)))

    # ---------------------------------------------------------------- modules
    def fresh_state(self):
        return State()

    def package(self, st=None):
        """abstractly evaluate the package; returns (state, ModV)"""
        st = st or State()
        self.hid(st)
        m = self.import_module(st, 'spherepy')
        return st, m

    def mod_path(self, name):
        if name.startswith('refspec_'):      # reference formulas of the checks
            return os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
                                'refspec', name[8:] + '.py')
        p = os.path.join(self.root, *name.split('.'))
        if os.path.isdir(p) and os.path.exists(os.path.join(p, '__init__.py')):
            return os.path.join(p, '__init__.py')
        if os.path.exists(p + '.py'):
            return p + '.py'
        return None

    def import_module(self, st, name):
        if name in self.mods:
            return self.mods[name]
        if '.' in name:
            par = name.rsplit('.', 1)[0]
            self.import_module(st, par)
            if name in self.mods:
                return self.mods[name]
        path = self.mod_path(name)
        if path is None:
            return self.external(st, name)
        node, _ = load_source(path)
        mid = st.new('mod', DictRec('module'))
        m = ModV(name, mid)
        self.mods[name] = m
        rec = st.mut(mid)
        rec.d['__name__'] = StrV(name)
        rec.d['__file__'] = StrV(path)
        rec.d['__doc__'] = NONE
        if '.' in name:
            par, leaf = name.rsplit('.', 1)
            pm = self.mods.get(par)
            # submodule becomes attribute of its package once imported
        ctx = Ctx(mid, mid, (), '<module>', name)
        osite = self.site
        self.exec_block(st, node.body, ctx)
        self.site = osite
        if '.' in name:
            par, leaf = name.rsplit('.', 1)
            pm = self.mods.get(par)
            if pm is not None and pm.id:
                st.mut(pm.id).d[leaf] = m
        return m

    def external(self, st, name):
        top = name.split('.')[0]
        if top == '_csphi':
            if self.native is None:
                self.raise_if(st, TRUE, 'ImportError', StrV(name))
            return ModV('_csphi')
        if top in ('matplotlib', 'mpl_toolkits') and not self.cfg['mpl']:
            self.raise_if(st, TRUE, 'ImportError', StrV(name))
        known = ('numpy', 'six', 'json', 'os', 'sys', 'functools', 'numbers', 'math', 'cmath',
                 'matplotlib', 'mpl_toolkits', '__future__', 'imp', 'operator', 'itertools',
                 'warnings', 'copy', 'importlib', 'string', 're', 'collections', 'typing',
                 'contextlib', 'io', 'abc')
        if top in known or top in sys.stdlib_module_names:
            return ModV(name)
        self.raise_if(st, TRUE, 'ImportError', StrV(name))

    # ---------------------------------------------------------------- statements
    def exec_block(self, st, body, ctx):
        for s in body:
            self.exec_stmt(st, s, ctx)

    def exec_stmt(self, st, s, ctx):
        self.site = (ctx.modname, ctx.name, getattr(s, 'lineno', 0))
        m = getattr(self, 'x_' + type(s).__name__, None)
        if m is None:
            raise AnalysisError('statement %s' % type(s).__name__)
        m(st, s, ctx)

    def x_Pass(self, st, s, ctx):
        pass

    def x_Global(self, st, s, ctx):
        pass

    x_Nonlocal = x_Global

    def x_Expr(self, st, s, ctx):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(st, s.value, ctx)

    def x_Assign(self, st, s, ctx):
        v = self.ev(st, s.value, ctx)
        for t in s.targets:
            self.assign(st, t, v, ctx)

    def x_AnnAssign(self, st, s, ctx):
        if s.value is not None:
            self.assign(st, s.target, self.ev(st, s.value, ctx), ctx)

    def x_AugAssign(self, st, s, ctx):
        op = type(s.op).__name__
        t = s.target
        if isinstance(t, ast.Name):
            old = self.load(st, t.id, ctx)
            b = self.ev(st, s.value, ctx)
            v = self.inplace(st, op, old, b)
            self.store(st, t.id, v, ctx)
        elif isinstance(t, ast.Attribute):
            o = self.ev(st, t.value, ctx)
            old = self.getattr(st, o, t.attr)
            b = self.ev(st, s.value, ctx)
            self.setattr(st, o, t.attr, self.inplace(st, op, old, b))
        elif isinstance(t, ast.Subscript):
            o = self.ev(st, t.value, ctx)
            i = self.ev(st, t.slice, ctx)
            old = self.getitem(st, o, i)
            b = self.ev(st, s.value, ctx)
            self.setitem(st, o, i, self.inplace(st, op, old, b))
        else:
            raise AnalysisError('augassign target')

    def inplace(self, st, op, a, b):
        def f(st, a):
            if isinstance(a, ArrV):
                return self.arr_inplace(st, op, a, b)
            if isinstance(a, Ref):
                r = st.get(a.id)
                if r.kind == 'list' and op == 'Add':
                    self.list_extend(st, a, b)
                    return a
                if r.kind == 'obj':
                    m = self.find_attr(st, r.cls, '__i%s__' % OPN[op])
                    if m is not None:
                        v = self.call(st, Bound(m, a), [b], {})
                        if not (isinstance(v, BuiltinV) and v.name == 'NotImplemented'):
                            return v
            return self.binop(st, op, a, b)
        return self.on(st, a, f)

    def x_Delete(self, st, s, ctx):
        for t in s.targets:
            if isinstance(t, ast.Name):
                fid = self.scope_of(st, t.id, ctx)
                if fid is not None:
                    st.mut(fid).d.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.ev(st, t.value, ctx)
                i = self.ev(st, t.slice, ctx)
                self.list_del(st, o, i)
            elif isinstance(t, ast.Attribute):
                o = self.ev(st, t.value, ctx)
                if isinstance(o, Ref):
                    st.mut(o.id).d.pop(t.attr, None)

    def x_If(self, st, s, ctx):
        c = self.truth(st, self.ev(st, s.test, ctx))
        if isinstance(c, UnkV):
            c = bcond(mk_atom('unk', (fresh_name('cond'),), 'int', True))
        site = self.site

        def f(q):
            self.exec_block(q, s.body, ctx)

        def g(q):
            self.exec_block(q, s.orelse, ctx)
        self.branch(st, c, f, g)

    def x_Return(self, st, s, ctx):
        v = NONE if s.value is None else self.ev(st, s.value, ctx)
        ctx.returns.append((st.fork(), v, self.site))
        raise PathEnd()

    def x_Raise(self, st, s, ctx):
        if s.exc is None:
            cur = getattr(self, 'handling', None)
            if cur:
                self.do_raise(st, cur[-1])
            self.do_raise(st, ExcV('RuntimeError'))
        v = self.ev(st, s.exc, ctx)
        self.raise_value(st, v)

    def raise_value(self, st, v):
        def f(st, v):
            if isinstance(v, ExcV):
                self.do_raise(st, v)
            if isinstance(v, (TypeV, ClassV)):
                e = self.call(st, v, [], {})
                if isinstance(e, ExcV):
                    self.do_raise(st, e)
            if isinstance(v, UnkV):
                self.do_raise(st, ExcV('?unknown'))
            self.do_raise(st, ExcV('TypeError', [StrV('exceptions must derive from BaseException')]))
        self.on(st, v, f)

    def x_Assert(self, st, s, ctx):
        c = self.truth(st, self.ev(st, s.test, ctx))
        if isinstance(c, UnkV):
            return
        self.raise_if(st, c_not(c), 'AssertionError')

    def x_Break(self, st, s, ctx):
        ctx.loops[-1]['exits'].append(('break', st.fork(), None, self.site))
        raise PathEnd()

    def x_Continue(self, st, s, ctx):
        ctx.loops[-1]['conts'].append(st.fork())
        raise PathEnd()

    def x_FunctionDef(self, st, s, ctx):
        f = self.make_func(st, s, ctx)
        for d in reversed(s.decorator_list):
            dv = self.ev(st, d, ctx)
            f = self.call(st, dv, [f], {})
        self.store(st, s.name, f, ctx)

    def make_func(self, st, node, ctx):
        ctx.closure = True
        dfl = [self.ev(st, d, ctx) for d in node.args.defaults]
        kwd = [None if d is None else self.ev(st, d, ctx) for d in node.args.kw_defaults]
        chain = ctx.chain
        if ctx.fid != ctx.mod and ctx.name != '<class>':
            chain = (ctx.fid,) + ctx.chain
        f = FuncV(node, (ctx.mod, ctx.modname), chain, dfl, kwd,
                  getattr(node, 'name', '<lambda>'), ctx.cls)
        f.attrs = st.new('fattr', DictRec('frame'))
        return f

    def x_ClassDef(self, st, s, ctx):
        bases = [self.ev(st, b, ctx) for b in s.bases]
        cid = st.new('class', DictRec('class'))
        cv = ClassV(s.name, bases, cid)
        for b in bases:
            if isinstance(b, TypeV) and b.name in EXC_NAMES:
                cv.exc = b.name
            elif isinstance(b, ClassV) and b.exc:
                cv.exc = b.exc
        c2 = Ctx(cid, ctx.mod, ((ctx.fid,) if ctx.fid != ctx.mod and ctx.name != '<class>' else ())
                 + ctx.chain, '<class>', ctx.modname, cls=cv)
        c2.locs = None
        c2.name = '<class>'
        self.exec_block(st, s.body, c2)
        v = cv
        for d in reversed(s.decorator_list):
            v = self.call(st, self.ev(st, d, ctx), [v], {})
        self.store(st, s.name, v, ctx)

    def x_Import(self, st, s, ctx):
        for a in s.names:
            m = self.import_module(st, a.name)
            if a.asname:
                self.store(st, a.asname, m, ctx)
            else:
                top = a.name.split('.')[0]
                self.store(st, top, self.mods.get(top) or ModV(top), ctx)

    def x_ImportFrom(self, st, s, ctx):
        if s.module == '__future__':
            return
        name = s.module or ''
        if s.level:
            pkg = ctx.modname
            if not (self.mod_path(pkg) or '').endswith('__init__.py'):
                pkg = pkg.rsplit('.', 1)[0]
            for _ in range(s.level - 1):
                pkg = pkg.rsplit('.', 1)[0]
            name = pkg + ('.' + name if name else '')
        m = self.import_module(st, name)
        for a in s.names:
            if a.name == '*':
                if m.id is None:
                    continue
                d = st.get(m.id).d
                al = d.get('__all__')
                if al is not None:
                    names = [x.const() for x in self.const_items(st, al)]
                else:
                    names = [k for k in d if not k.startswith('_')]
                for k in names:
                    if k in d:
                        self.store(st, k, d[k], ctx)
                continue
            v = None
            if m.id is not None:
                v = st.get(m.id).d.get(a.name)
                if v is None and self.mod_path(name + '.' + a.name):
                    v = self.import_module(st, name + '.' + a.name)
                if v is None:
                    self.do_raise(st, ExcV('ImportError', [StrV(a.name)]))
            else:
                v = self.getattr(st, m, a.name)
            self.store(st, a.asname or a.name, v, ctx)

    def x_Try(self, st, s, ctx):
        base = st.path
        sink = Sink()
        self.sinks.append(sink)
        nret = len(ctx.returns)
        lret = ctx.returns
        ctx.returns = []
        alive = []           # (state) in order
        body = st.fork()
        normal = True
        try:
            try:
                self.exec_block(body, s.body, ctx)
            except PathEnd:
                normal = False
        finally:
            self.sinks.pop()
        out = []              # finished states (normal continuation)
        pend = []             # raise records that escape
        if s.orelse and normal:
            sink2 = Sink()
            self.sinks.append(sink2)
            try:
                try:
                    self.exec_block(body, s.orelse, ctx)
                except PathEnd:
                    normal = False
            finally:
                self.sinks.pop()
            pend.extend(sink2.recs)
        if normal:
            out.append(body)
        for (rs, exc, site) in sink.recs:
            h = None
            for hd in s.handlers:
                if self.exc_match(rs, exc, hd.type, ctx):
                    h = hd
                    break
            if h is None:
                pend.append((rs, exc, site))
                continue
            sink3 = Sink()
            self.sinks.append(sink3)
            if not hasattr(self, 'handling'):
                self.handling = []
            self.handling.append(exc)
            try:
                try:
                    if h.name:
                        self.store(rs, h.name, exc, ctx)
                    self.exec_block(rs, h.body, ctx)
                    out.append(rs)
                except PathEnd:
                    pass
            finally:
                self.sinks.pop()
                self.handling.pop()
            pend.extend(sink3.recs)
        rets = ctx.returns
        ctx.returns = lret
        if s.finalbody:
            def fin(q):
                self.exec_block(q, s.finalbody, ctx)
            for (rs, exc, site) in pend:
                try:
                    fin(rs)
                    self.sinks[-1].recs.append((rs, exc, site))
                except PathEnd:
                    pass
            for (rs, v, site) in rets:
                try:
                    fin(rs)
                    ctx.returns.append((rs, v, site))
                except PathEnd:
                    pass
            o2 = []
            for q in out:
                try:
                    fin(q)
                    o2.append(q)
                except PathEnd:
                    pass
            out = o2
        else:
            self.sinks[-1].recs.extend(pend)
            ctx.returns.extend(rets)
        if not out:
            raise PathEnd()
        # the normal state is the complement of the exceptional ones
        acc = out[0]
        for q in out[1:]:
            c = c_and(q.path[len(base):])
            acc = merge_state(c, q, acc, base)
        st.become(acc)

    def exc_match(self, st, exc, tnode, ctx):
        if tnode is None:
            return True
        t = self.ev(st, tnode, ctx)
        return self.exc_isinst(exc, t)

    def exc_isinst(self, exc, t):
        if isinstance(t, TupleV):
            return any(self.exc_isinst(exc, x) for x in t.items)
        if isinstance(t, TypeV):
            if exc.user is not None:
                return exc_issub(exc.user.exc or 'Exception', t.name)
            return exc_issub(exc.cls, t.name)
        if isinstance(t, ClassV):
            return exc.user is not None and self.cls_issub(exc.user, t)
        return False

    def cls_issub(self, c, d):
        if same(c, d):
            return True
        for b in getattr(c, 'bases', ()):
            if isinstance(b, (ClassV, TypeV)) and self.cls_issub(b, d):
                return True
        if isinstance(d, TypeV) and d.name == 'object':
            return True
        return False

    def x_With(self, st, s, ctx):
        fin = []
        for it in s.items:
            v = self.ev(st, it.context_expr, ctx)
            if isinstance(v, FileV) or isinstance(v, UnkV) or isinstance(v, BuiltinV) or isinstance(v, ModV):
                ent = v
            elif isinstance(v, Ref):
                m = self.find_attr(st, st.get(v.id).cls, '__enter__') if st.get(v.id).kind == 'obj' else None
                if m is None:
                    ent = self.unknown('with')
                else:
                    ent = self.call(st, Bound(m, v), [], {})
                    fin.append(v)
            else:
                ent = v
            if it.optional_vars is not None:
                self.assign(st, it.optional_vars, ent, ctx)
        self.exec_block(st, s.body, ctx)
        for v in reversed(fin):
            m = self.find_attr(st, st.get(v.id).cls, '__exit__')
            if m is not None:
                self.call(st, Bound(m, v), [NONE, NONE, NONE], {})

    def x_For(self, st, s, ctx):
        it = self.ev(st, s.iter, ctx)
        site = self.site

        def body(q, v):
            self.assign(q, s.target, v, ctx)
            self.exec_block(q, s.body, ctx)

        def f(q, itv):
            self.iterate(q, itv, body, ctx, s.orelse)
        self.on(st, it, f)

    def x_While(self, st, s, ctx):
        def head(q):
            c = self.truth(q, self.ev(q, s.test, ctx))
            if isinstance(c, UnkV):
                return bcond(mk_atom('unk', (fresh_name('cond'),), 'int', True))
            return c

        def body(q, i):
            self.exec_block(q, s.body, ctx)
        self.while_loop(st, head, body, ctx, s.orelse)

    # ---------------------------------------------------------------- names
    def scope_of(self, st, name, ctx):
        if ctx.locs is None:            # class body
            return ctx.fid
        if name in ctx.globs or ctx.fid == ctx.mod:
            return ctx.mod
        if name in ctx.nonlocs:
            for f in ctx.chain:
                if name in st.get(f).d:
                    return f
            return ctx.fid
        return ctx.fid

    def store(self, st, name, v, ctx):
        st.mut(self.scope_of(st, name, ctx)).d[name] = v

    def load(self, st, name, ctx):
        v = None
        if ctx.locs is None or (name in ctx.locs):
            v = st.get(ctx.fid).d.get(name)
            if v is None and ctx.locs is not None:
                self.do_raise(st, ExcV('UnboundLocalError', [StrV(name)]))
        if v is None:
            for f in ctx.chain:
                v = st.get(f).d.get(name)
                if v is not None:
                    break
        if v is None:
            v = st.get(ctx.mod).d.get(name)
        if v is None:
            return self.builtin_name(st, name)
        return self.defined(st, v, name)

    def defined(self, st, v, name, exc='UnboundLocalError'):
        if isinstance(v, UndefV):
            self.do_raise(st, ExcV(exc, [StrV(name) if isinstance(name, str) else name]))
        if isinstance(v, HavocV):
            v.read = True
            return v
        if isinstance(v, PhiV) and has_undef(v):
            return self.on(st, v, lambda s, x: self.defined(s, x, name, exc))
        return v

    def builtin_name(self, st, name):
        if name in EXC_NAMES:
            return TypeV(name)
        if name in TYPE_NAMES:
            return TypeV(name)
        if name in BUILTIN_FUNCS:
            return BuiltinV(name)
        if name == 'NotImplemented':
            return BuiltinV('NotImplemented')
        if name == 'Ellipsis':
            return ELL
        if name == '__debug__':
            return BoolV(TRUE)
        if name == 'xrange':
            self.do_raise(st, ExcV('NameError', [StrV(name)]))
        self.do_raise(st, ExcV('NameError', [StrV(name)]))

    def assign(self, st, t, v, ctx):
        if isinstance(t, ast.Name):
            self.store(st, t.id, v, ctx)
        elif isinstance(t, ast.Attribute):
            o = self.ev(st, t.value, ctx)
            self.setattr(st, o, t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(st, t.value, ctx)
            i = self.ev(st, t.slice, ctx)
            self.setitem(st, o, i, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            k = len(t.elts)
            if any(isinstance(e, ast.Starred) for e in t.elts):
                items = self.const_items(st, v)
                j = [isinstance(e, ast.Starred) for e in t.elts].index(True)
                if items is None:
                    items = [self.unknown('star assign')] * k
                after = k - j - 1
                mid = items[j:len(items) - after]
                parts = items[:j] + [self.new_list(st, mid)] + items[len(items) - after:]
                for e, x in zip(t.elts, parts):
                    self.assign(st, e.value if isinstance(e, ast.Starred) else e, x, ctx)
                return

            def f(st, v):
                items = self.unpack(st, v, k)
                for e, x in zip(t.elts, items):
                    self.assign(st, e, x, ctx)
            self.on(st, v, f)
        elif isinstance(t, ast.Starred):
            self.assign(st, t.value, v, ctx)
        else:
            raise AnalysisError('assign target')

    def unpack(self, st, v, k):
        if isinstance(v, UnkV):
            return [v] * k
        if isinstance(v, ArrV):
            self.raise_if(st, ne(v.shape[0], num(k)), 'ValueError')
            return [self.getitem(st, v, NumV(num(j))) for j in range(k)]
        items = self.const_items(st, v)
        if items is None:
            if isinstance(v, Ref) and st.get(v.id).kind == 'list':
                n = self.list_len(st, v)
                self.raise_if(st, ne(n, num(k)), 'ValueError')
                return [self.getitem(st, v, NumV(num(j))) for j in range(k)]
            return [self.unknown('unpack')] * k
        if len(items) != k:
            self.do_raise(st, ExcV('ValueError', [StrV('unpack')]))
        return items

    def const_items(self, st, v):
        """python list of items when the number is static"""
        if isinstance(v, TupleV):
            return list(v.items)
        if isinstance(v, StrV):
            c = v.const()
            return None if c is None else [StrV(x) for x in c]
        if isinstance(v, RangeV):
            n = self.range_len(st, v).int_const()
            if n is None:
                return None
            return [NumV(v.lo + v.step * k, 'int') for k in range(n)]
        if isinstance(v, Ref):
            r = st.get(v.id)
            if r.kind == 'list' and isinstance(r, ListRec) and all(s[0] == 'one' for s in r.segs):
                return [s[1] for s in r.segs]
            if r.kind == 'dict' and self.plain_dict(r):
                return [self.from_key(k) for k in r.d]
            return None
        if isinstance(v, ArrV):
            n = st.F.simp(v.shape[0]).int_const() if v.shape else None
            if n is None or n > 64:
                return None
            return [self.getitem(st, v, NumV(num(k), 'int')) for k in range(n)]
        if isinstance(v, IterV):
            if v.kind == 'enumerate':
                xs = self.const_items(st, v.parts[0])
                if xs is None:
                    return None
                s0 = v.extra or num(0)
                return [TupleV([NumV(s0 + k, 'int'), x]) for k, x in enumerate(xs)]
            if v.kind == 'zip':
                xs = [self.const_items(st, p) for p in v.parts]
                if any(x is None for x in xs):
                    return None
                return [TupleV(t) for t in zip(*xs)]
            if v.kind == 'reversed':
                xs = self.const_items(st, v.parts[0])
                return None if xs is None else list(reversed(xs))
            if v.kind == 'items':
                xs = self.const_items(st, v.parts[0])
                return xs
            if v.kind == 'map':
                xs = self.const_items(st, v.parts[1])
                return None if xs is None else [self.call(st, v.parts[0], [x], {}) for x in xs]
        return None

    def from_key(self, k):
        if isinstance(k, str):
            return StrV(k)
        if isinstance(k, bool):
            return BoolV(cbool(k))
        if isinstance(k, int):
            return NumV(num(k), 'int')
        if isinstance(k, tuple):
            return TupleV([self.from_key(x) for x in k])
        if isinstance(k, Val):
            return k
        return UnkV('key')

    def to_key(self, v):
        if isinstance(v, StrV):
            return v.const()
        if isinstance(v, NumV):
            k = v.t.int_const()
            return k if k is not None else SKey(v.t) if v.ty in ('int', 'npint', 'float', 'npfloat') else None
        if isinstance(v, NoneT):
            return v
        if isinstance(v, BoolV) and v.c.k in ('T', 'F'):
            return int(v.c.k == 'T')
        if isinstance(v, TupleV):
            ks = [self.to_key(x) for x in v.items]
            return None if any(k is None for k in ks) else tuple(ks)
        if isinstance(v, (TypeV, ClassV, FuncV)):
            return v
        return None

    # -- dicts whose keys may be symbolic numbers
    def key_eq(self, st, a, b):
        if isinstance(a, tuple) or isinstance(b, tuple):
            if not (isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b)):
                return FALSE
            return c_and([self.key_eq(st, x, y) for x, y in zip(a, b)])
        if isinstance(a, SKey) or isinstance(b, SKey):
            ta = a.t if isinstance(a, SKey) else num(a) if isinstance(a, int) else None
            tb = b.t if isinstance(b, SKey) else num(b) if isinstance(b, int) else None
            if ta is None or tb is None:
                return FALSE
            return st.F.reduce(eq(ta, tb))
        return cbool(a is b if isinstance(a, Val) else not isinstance(b, Val) and a == b)

    def dict_find(self, st, r, k):
        """value under key k, UNDEF where there is none; None when not known"""
        if k is None or '%unk' in r.d:
            return None
        if not has_sym(k) and not any(has_sym(x) for x in r.d):
            return r.d.get(k, UNDEF)
        v = UNDEF
        for k2, x in r.d.items():
            c = self.key_eq(st, k, k2)
            if c.k != 'F':
                v = merge_val(c, drop_undef(x, v), v)
        return v

    def dict_store(self, st, id, k, v):
        r = st.mut(id)
        if k is None:
            self.unknown('dict store')
            r.d = {'%unk': UNDEF}
            return
        if has_sym(k) or any(has_sym(x) for x in r.d):
            for k2 in list(r.d):
                c = self.key_eq(st, k, k2)
                if c.k == 'T':
                    r.d[k2] = v
                    return
                if c.k != 'F':
                    r.d[k2] = merge_val(c, v, r.d[k2])
        r.d[k] = v

    def plain_dict(self, r):
        return '%unk' not in r.d and not any(has_sym(k) for k in r.d) and not any(has_undef(v) for v in r.d.values())

    def new_list(self, st, items):
        return Ref(st.new('list', ListRec([('one', x) for x in items])))

    # ---------------------------------------------------------------- expressions
    def ev(self, st, e, ctx):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise AnalysisError('expression %s' % type(e).__name__)
        return m(st, e, ctx)

    def e_Constant(self, st, e, ctx):
        v = e.value
        if v is None:
            return NONE
        if v is True or v is False:
            return BoolV(cbool(v))
        if isinstance(v, int):
            return NumV(num(v), 'int')
        if isinstance(v, float):
            return NumV(T.fromfloat(v), 'float')
        if isinstance(v, complex):
            return NumV(T.fromfloat(v.real) + T.fromfloat(v.imag) * T.I, 'complex')
        if isinstance(v, str):
            return StrV(v)
        if v is Ellipsis:
            return ELL
        if isinstance(v, bytes):
            return UnkV('bytes')
        raise AnalysisError('constant')

    def e_Name(self, st, e, ctx):
        return self.load(st, e.id, ctx)

    def e_Tuple(self, st, e, ctx):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                it = self.const_items(st, self.ev(st, x.value, ctx))
                if it is None:
                    return self.unknown('star tuple')
                out.extend(it)
            else:
                out.append(self.ev(st, x, ctx))
        return TupleV(out)

    def e_List(self, st, e, ctx):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                l = Ref(st.new('list', ListRec([('one', y) for y in out])))
                self.list_extend(st, l, self.ev(st, x.value, ctx))
                out = None
                rest = e.elts[e.elts.index(x) + 1:]
                for y in rest:
                    if isinstance(y, ast.Starred):
                        self.list_extend(st, l, self.ev(st, y.value, ctx))
                    else:
                        st.mut(l.id).segs.append(('one', self.ev(st, y, ctx)))
                return l
            out.append(self.ev(st, x, ctx))
        return self.new_list(st, out)

    def e_Set(self, st, e, ctx):
        for x in e.elts:
            self.ev(st, x, ctx)
        return TupleV([self.ev(st, x, ctx) for x in e.elts])

    def e_Dict(self, st, e, ctx):
        d = {}
        bad = False
        for k, v in zip(e.keys, e.values):
            vv = self.ev(st, v, ctx)
            if k is None:
                if isinstance(vv, Ref) and st.get(vv.id).kind == 'dict' and self.plain_dict(st.get(vv.id)):
                    d.update(st.get(vv.id).d)
                    continue
                bad = True
                continue
            kk = self.to_key(self.ev(st, k, ctx))
            if kk is None or has_sym(kk) and len(e.keys) > 1:
                bad = True
            else:
                d[kk] = vv
        if bad:
            return self.unknown('dict key')
        return Ref(st.new('dict', DictRec('dict', d)))

    def e_Attribute(self, st, e, ctx):
        o = self.ev(st, e.value, ctx)
        return self.getattr(st, o, e.attr)

    def e_Subscript(self, st, e, ctx):
        o = self.ev(st, e.value, ctx)
        i = self.ev(st, e.slice, ctx)
        return self.getitem(st, o, i)

    def e_Slice(self, st, e, ctx):
        g = lambda x: NONE if x is None else self.ev(st, x, ctx)
        return SliceV(g(e.lower), g(e.upper), g(e.step))

    def e_Index(self, st, e, ctx):
        return self.ev(st, e.value, ctx)

    def e_Starred(self, st, e, ctx):
        raise AnalysisError('starred')

    def e_NamedExpr(self, st, e, ctx):
        v = self.ev(st, e.value, ctx)
        self.assign(st, e.target, v, ctx)
        return v

    def e_Lambda(self, st, e, ctx):
        return self.make_func(st, e, ctx)

    def e_IfExp(self, st, e, ctx):
        c = self.truth(st, self.ev(st, e.test, ctx))
        if isinstance(c, UnkV):
            c = bcond(mk_atom('unk', (fresh_name('cond'),), 'int', True))
        return self.branch(st, c, lambda s: self.ev(s, e.body, ctx), lambda s: self.ev(s, e.orelse, ctx))

    def e_BoolOp(self, st, e, ctx):
        isand = isinstance(e.op, ast.And)

        def go(st, k):
            v = self.ev(st, e.values[k], ctx)
            if k == len(e.values) - 1:
                return v
            c = self.truth(st, v)
            if isinstance(c, UnkV):
                c = bcond(mk_atom('unk', (fresh_name('cond'),), 'int', True))
            if isand:
                return self.branch(st, c, lambda s: go(s, k + 1), lambda s: v2b(v, FALSE))
            return self.branch(st, c, lambda s: v2b(v, TRUE), lambda s: go(s, k + 1))

        def v2b(v, c):
            return BoolV(c) if isinstance(v, BoolV) else v
        return go(st, 0)

    def e_UnaryOp(self, st, e, ctx):
        v = self.ev(st, e.operand, ctx)
        op = type(e.op).__name__
        if op == 'Not':
            c = self.truth(st, v)
            return c if isinstance(c, UnkV) else BoolV(c_not(c))
        return self.on(st, v, lambda s, x: self.unop(s, op, x))

    def unop(self, st, op, v):
        if isinstance(v, BoolV):
            if v.np and op == 'Invert':
                return BoolV(c_not(v.c), True)
            v = NumV(ite(v.c, num(1), num(0)), 'int')
        if isinstance(v, NumV):
            if op == 'USub':
                return NumV(-v.t, v.ty)
            if op == 'UAdd':
                return v
            if op == 'Invert' and v.t.sort == 'int':
                return NumV(-v.t - 1, v.ty)
        if isinstance(v, ArrV):
            if op == 'USub':
                return self.arr_map(st, lambda x: -x, v)
            if op == 'UAdd':
                return self.arr_map(st, lambda x: x, v)
        if isinstance(v, Ref) and st.get(v.id).kind == 'obj':
            m = self.find_attr(st, st.get(v.id).cls, {'USub': '__neg__', 'UAdd': '__pos__', 'Invert': '__invert__'}[op])
            if m is not None:
                return self.call(st, Bound(m, v), [], {})
        if isinstance(v, UnkV):
            return v
        self.do_raise(st, ExcV('TypeError', [StrV('bad operand type for unary')]))

    def e_BinOp(self, st, e, ctx):
        a = self.ev(st, e.left, ctx)
        b = self.ev(st, e.right, ctx)
        return self.binop(st, type(e.op).__name__, a, b)

    def e_Compare(self, st, e, ctx):
        left = self.ev(st, e.left, ctx)

        def go(st, k, left):
            r = self.ev(st, e.comparators[k], ctx)
            v = self.compare(st, type(e.ops[k]).__name__, left, r)
            if k == len(e.ops) - 1:
                return v
            c = self.truth(st, v)
            if isinstance(c, UnkV):
                return c
            return self.branch(st, c, lambda s: go(s, k + 1, r), lambda s: BoolV(FALSE))
        return go(st, 0, left)

    def e_JoinedStr(self, st, e, ctx):
        parts = []
        for p in e.values:
            if isinstance(p, ast.Constant):
                parts.append(p.value)
            else:
                v = self.ev(st, p.value, ctx)
                spec = ''
                if p.format_spec is not None:
                    sv = self.e_JoinedStr(st, p.format_spec, ctx)
                    spec = sv.const()
                    if spec is None:
                        spec = '?'
                conv = None if p.conversion == -1 else chr(p.conversion)
                parts.append(self.fmt1(st, v, spec, conv))
        return StrV(*flat(parts))

    def e_FormattedValue(self, st, e, ctx):
        return StrV(*flat([self.fmt1(st, self.ev(st, e.value, ctx), '', None)]))

    def fmt1(self, st, v, spec, conv):
        if isinstance(v, StrV) and not spec and conv in (None, 's'):
            return list(v.parts)
        if isinstance(v, NumV) and not spec and conv is None and v.ty == 'int':
            k = v.t.int_const()
            if k is not None:
                return str(k)
        return ('f', v, spec, conv)

    def e_ListComp(self, st, e, ctx):
        return self.comp(st, e, ctx, [e.elt])

    def e_GeneratorExp(self, st, e, ctx):
        return self.comp(st, e, ctx, [e.elt])

    def e_SetComp(self, st, e, ctx):
        return self.comp(st, e, ctx, [e.elt])

    def e_DictComp(self, st, e, ctx):
        l = self.comp(st, e, ctx, [e.key, e.value])
        items = self.const_items(st, l)
        d = {}
        if items is None:
            return self.unknown('dict comp')
        for t in items:
            k = self.to_key(t.items[0])
            if k is None or has_sym(k):
                return self.unknown('dict comp')
            d[k] = t.items[1]
        return Ref(st.new('dict', DictRec('dict', d)))

    def comp(self, st, e, ctx, elts):
        lst = Ref(st.new('list', ListRec()))
        names = set()
        for g in e.generators:
            for n in ast.walk(g.target):
                if isinstance(n, ast.Name):
                    names.add(n.id)
        fid = st.new('frame', DictRec('frame'))
        chain = ctx.chain
        if ctx.fid != ctx.mod:
            if ctx.locs is None:
                chain = ctx.chain
            else:
                chain = (ctx.fid,) + ctx.chain
        c2 = Ctx(fid, ctx.mod, chain, ctx.name, ctx.modname, names, (), (), ctx.cls)
        ctx.closure = True

        def gen(st, k):
            if k == len(e.generators):
                vs = [self.ev(st, x, c2) for x in elts]
                st.mut(lst.id).segs.append(('one', vs[0] if len(vs) == 1 else TupleV(vs)))
                return
            g = e.generators[k]
            it = self.ev(st, g.iter, ctx if k == 0 else c2)

            def body(q, v):
                self.assign(q, g.target, v, c2)

                def cond(q, j):
                    if j == len(g.ifs):
                        gen(q, k + 1)
                        return
                    c = self.truth(q, self.ev(q, g.ifs[j], c2))
                    if isinstance(c, UnkV):
                        c = bcond(mk_atom('unk', (fresh_name('cond'),), 'int', True))
                    self.branch(q, c, lambda s: cond(s, j + 1), lambda s: None)
                cond(q, 0)
            self.on(st, it, lambda s, itv: self.iterate(s, itv, body, c2, []))
        gen(st, 0)
        return lst

    def e_Call(self, st, e, ctx):
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
            return self.make_super(st, ctx)
        f = self.ev(st, e.func, ctx)
        args, kw = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                it = self.const_items(st, self.ev(st, a.value, ctx))
                if it is None:
                    args.append(self.unknown('*args'))
                else:
                    args.extend(it)
            else:
                args.append(self.ev(st, a, ctx))
        for k in e.keywords:
            v = self.ev(st, k.value, ctx)
            if k.arg is None:
                if isinstance(v, Ref) and st.get(v.id).kind == 'dict':
                    for kk, x in st.get(v.id).d.items():
                        kw[kk] = x
            else:
                kw[k.arg] = v
        site = self.site
        r = self.call(st, f, args, kw)
        self.site = site
        return r

    def make_super(self, st, ctx):
        fr = st.get(ctx.fid).d
        first = next(iter(fr.values()))
        return IterV('super', [ctx.cls, first])

    # ---------------------------------------------------------------- calls
    def call(self, st, f, args, kw):
        return self.on(st, f, lambda s, g: self.call1(s, g, args, kw))

    def call1(self, st, f, args, kw):
        if isinstance(f, FuncV):
            return self.call_func(st, f, args, kw)
        if isinstance(f, Bound):
            if isinstance(f.fn, BuiltinV):
                return self.call_method(st, f.fn.name, f.slf, args, kw)
            return self.call(st, f.fn, [f.slf] + list(args), kw)
        if isinstance(f, ClassV):
            return self.instantiate(st, f, args, kw)
        if isinstance(f, TypeV):
            return self.call_type(st, f.name, args, kw)
        if isinstance(f, BuiltinV):
            return self.call_builtin(st, f, args, kw)
        if isinstance(f, StaticV):
            return self.call(st, f.fn, args, kw)
        if isinstance(f, Ref) and st.get(f.id).kind == 'obj':
            m = self.find_attr(st, st.get(f.id).cls, '__call__')
            if m is not None:
                return self.call(st, Bound(m, f), args, kw)
        if isinstance(f, (UnkV, ModV)):
            return self.unknown('call of unknown')
        self.do_raise(st, ExcV('TypeError', [StrV('object is not callable')]))

    def bind(self, st, fn, args, kw):
        a = fn.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        d = {}
        args = list(args)
        kw = dict(kw)
        if len(args) > len(pos):
            if a.vararg is None:
                self.do_raise(st, ExcV('TypeError', [StrV('too many positional arguments')]))
            d[a.vararg.arg] = TupleV(args[len(pos):])
            args = args[:len(pos)]
        elif a.vararg is not None:
            d[a.vararg.arg] = TupleV([])
        for p, v in zip(pos, args):
            d[p] = v
        for p in pos[len(args):]:
            if p in kw:
                d[p] = kw.pop(p)
        nd = len(fn.defaults)
        for j, p in enumerate(pos):
            if p not in d:
                k = j - (len(pos) - nd)
                if k < 0:
                    self.do_raise(st, ExcV('TypeError', [StrV('missing argument ' + p)]))
                d[p] = fn.defaults[k]
        for j, p in enumerate(a.kwonlyargs):
            if p.arg in kw:
                d[p.arg] = kw.pop(p.arg)
            elif fn.kwdefaults[j] is not None:
                d[p.arg] = fn.kwdefaults[j]
            else:
                self.do_raise(st, ExcV('TypeError', [StrV('missing keyword argument ' + p.arg)]))
        if a.kwarg is not None:
            d[a.kwarg.arg] = Ref(st.new('dict', DictRec('dict', kw)))
        elif kw:
            self.do_raise(st, ExcV('TypeError', [StrV('unexpected keyword argument ' + sorted(kw)[0])]))
        # parameters in declaration order first (super() relies on it)
        out = {}
        for p in pos:
            out[p] = d.pop(p)
        out.update(d)
        return out

    def call_func(self, st, fn, args, kw):
        self.depth += 1
        self.stats['calls'] += 1
        try:
            if self.depth > MAXDEPTH:
                return self.unknown('call depth')
            d = self.bind(st, fn, args, kw)
            if self.summaries and fn.cls is None:
                h = self.summaries.get('%s.%s' % (fn.module[1], fn.name))
                if h is not None:
                    r = self.summarised(st, h, d)
                    if r is not NotImplemented:
                        return r
            fid = st.new('frame', DictRec('frame', d))
            locs, globs, nonl = fn_scope(fn.node)
            ctx = Ctx(fid, fn.module[0], fn.closure, fn.name, fn.module[1], locs, globs, nonl, fn.cls)
            self.functions.add('%s.%s%s' % (fn.module[1], (fn.cls.name + '.') if fn.cls else '', fn.name))
            base = st.path
            osite = self.site
            if isinstance(fn.node, ast.Lambda):
                v = self.ev(st, fn.node.body, ctx)
                self.site = osite
                return v
            if is_generator(fn.node):
                return self.unknown('generator')
            cur = st.fork()
            alive = True
            try:
                self.exec_block(cur, fn.node.body, ctx)
            except PathEnd:
                alive = False
            rets = [(s, v) for s, v, _ in ctx.returns]
            if alive:
                rets.append((cur, NONE))
            if not rets:
                raise PathEnd()
            acc, val = rets[-1]
            for s, v in reversed(rets[:-1]):
                c = c_and(s.path[len(base):])
                if c.k not in ('T', 'F'):
                    c = Facts_of(base, st).reduce(c)
                if c.k == 'T' and len(rets) > 1:
                    acc, val = s, v
                    continue
                acc = merge_state(c, s, acc, base)
                val = merge_val(c, v, val)
            if not ctx.closure:
                acc.heap.pop(fid, None)
            st.become(acc)
            self.site = osite
            return val
        finally:
            self.depth -= 1

    def summarised(self, st, h, d):
        """apply a summary, splitting joined argument values"""
        for k, v in d.items():
            if isinstance(v, PhiV):
                def case(s, x):
                    e = dict(d)
                    e[k] = x
                    r = self.summarised(s, h, e)
                    return self.unknown('summary') if r is NotImplemented else r
                return self.on(st, v, case)
        return h(self, st, d)

    def instantiate(self, st, cls, args, kw):
        if cls.exc:
            e = ExcV(cls.name, args, cls)
            return e
        oid = st.new('obj', DictRec('obj', {}, cls))
        o = Ref(oid)
        m = self.find_attr(st, cls, '__init__')
        if m is not None:
            self.call(st, Bound(m, o), args, kw)
        elif args or kw:
            self.do_raise(st, ExcV('TypeError', [StrV(cls.name + '() takes no arguments')]))
        return o

    def find_attr(self, st, cls, name):
        if not isinstance(cls, ClassV):
            return None
        d = st.get(cls.id).d
        v = d.get(name)
        if v is not None:
            return v
        for b in cls.bases:
            v = self.find_attr(st, b, name)
            if v is not None:
                return v
        return None

    # ---------------------------------------------------------------- attributes
    def getattr(self, st, o, name, default=None):
        return self.on(st, o, lambda s, x: self.getattr1(s, x, name, default))

    def getattr1(self, st, o, name, default=None):
        if isinstance(o, UnkV):
            return self.unknown('attribute of unknown')
        if isinstance(o, Ref):
            r = st.get(o.id)
            if isinstance(r, PhiRec):
                return BuiltinBound(name, o)
            if r.kind == 'obj':
                cv = self.find_attr(st, r.cls, name)
                if isinstance(cv, PropV):
                    return self.call(st, cv.get, [o], {})
                if name in r.d:
                    return self.defined(st, r.d[name], name)
                if name == '__class__':
                    return r.cls
                if name == '__dict__':
                    return self.unknown('__dict__')
                if cv is not None:
                    if isinstance(cv, FuncV):
                        return Bound(cv, o)
                    if isinstance(cv, StaticV):
                        return Bound(cv.fn, r.cls) if cv.kind == 'classmethod' else cv.fn
                    return cv
                if name in ('__repr__', '__str__'):
                    return BuiltinBound(name, o)
                if default is not None:
                    return default
                self.do_raise(st, ExcV('AttributeError', [StrV(name)]))
            if r.kind in ('list', 'dict', 'file'):
                if hasattr(list if r.kind == 'list' else dict, name):
                    return BuiltinBound(name, o)
                if default is not None:
                    return default
                self.do_raise(st, ExcV('AttributeError', [StrV(name)]))
        if isinstance(o, ModV):
            if o.id is not None:
                v = st.get(o.id).d.get(name)
                if v is not None:
                    return self.defined(st, v, name)
                sub = o.name + '.' + name
                if sub in self.mods:
                    return self.mods[sub]
                if default is not None:
                    return default
                self.do_raise(st, ExcV('AttributeError', [StrV(name)]))
            return self.ext_attr(st, o, name)
        if isinstance(o, ClassV):
            v = self.find_attr(st, o, name)
            if isinstance(v, StaticV):
                return Bound(v.fn, o) if v.kind == 'classmethod' else v.fn
            if v is not None:
                return v
            if name == '__name__':
                return StrV(o.name)
            if name == '__doc__':
                return NONE
            if default is not None:
                return default
            self.do_raise(st, ExcV('AttributeError', [StrV(name)]))
        if isinstance(o, ArrV):
            v = self.arr_attr(st, o, name)
            if v is not None:
                return v
            if default is not None:
                return default
            self.do_raise(st, ExcV('AttributeError', [StrV(name)]))
        if isinstance(o, BoolV):
            o = NumV(ite(o.c, num(1), num(0)), 'bool')
        if isinstance(o, NumV):
            if name == 'real':
                return NumV(re_im(o.t)[0], real_ty(o.ty))
            if name == 'imag':
                return NumV(re_im(o.t)[1], real_ty(o.ty))
            npty = o.ty.startswith('np')
            if npty and name == 'shape':
                return TupleV([])
            if npty and name == 'T':
                return o
            if npty and name == 'size':
                return NumV(num(1), 'int')
            if npty and name == 'ndim':
                return NumV(num(0), 'int')
            if npty and name == 'dtype':
                return UnkV('dtype')
            if name in ('conjugate', 'conj', 'is_integer', '__repr__', '__str__', 'item', 'astype',
                        'copy', 'bit_length', '__abs__', 'all', 'any', 'sum', 'max', 'min'):
                if not npty and name in ('conj', 'item', 'astype', 'copy', 'all', 'any', 'sum', 'max', 'min'):
                    self.do_raise(st, ExcV('AttributeError', [StrV(name)]))
                return BuiltinBound(name, o)
            if default is not None:
                return default
            self.do_raise(st, ExcV('AttributeError', [StrV(name)]))
        if isinstance(o, StrV):
            if hasattr(str, name):
                return BuiltinBound(name, o)
            self.do_raise(st, ExcV('AttributeError', [StrV(name)]))
        if isinstance(o, TupleV):
            if hasattr(tuple, name):
                return BuiltinBound(name, o)
            if default is not None:
                return default
            self.do_raise(st, ExcV('AttributeError', [StrV(name)]))
        if isinstance(o, SliceV):
            if name in ('start', 'stop', 'step'):
                return getattr(o, name)
            if name == 'indices':
                return BuiltinBound(name, o)
        if isinstance(o, RangeV) and name in ('start', 'stop', 'step'):
            return NumV({'start': o.lo, 'stop': o.hi, 'step': o.step}[name], 'int')
        if isinstance(o, FuncV):
            if o.attrs is not None and name in st.get(o.attrs).d:
                return self.defined(st, st.get(o.attrs).d[name], name, 'AttributeError')
            if name == '__name__':
                return StrV(o.name)
            if name == '__doc__':
                d = ast.get_docstring(o.node) if hasattr(o.node, 'name') else None
                return NONE if d is None else StrV(d)
            if name in ('__module__', '__dict__', '__wrapped__', '__qualname__'):
                return UnkV(name)
            if default is not None:
                return default
            self.do_raise(st, ExcV('AttributeError', [StrV(name)]))
        if isinstance(o, PropV):
            if name in ('setter', 'getter', 'deleter'):
                return BuiltinV('prop_' + name, o)
        if isinstance(o, ExcV):
            if name == 'args':
                return TupleV(o.args)
            return self.unknown('exception attribute')
        if isinstance(o, FileV):
            return BuiltinBound(name, o)
        if isinstance(o, IterV) and o.kind == 'super':
            cls, slf = o.parts
            for b in cls.bases:
                v = self.find_attr(st, b, name)
                if v is not None:
                    return Bound(v, slf)
            if name == '__init__':
                return BuiltinV('noop')
            self.do_raise(st, ExcV('AttributeError', [StrV(name)]))
        if isinstance(o, TypeV):
            if name == '__name__':
                return StrV(o.name)
            return BuiltinV('typemethod', (o.name, name))
        if isinstance(o, Bound):
            return self.getattr1(st, o.fn, name, default)
        if isinstance(o, BuiltinV):
            return self.ext_attr(st, ModV(o.name), name)
        if isinstance(o, IterV):
            return self.unknown('iterator attribute')
        if isinstance(o, (NoneT, EllipsisT)):
            if default is not None:
                return default
            self.do_raise(st, ExcV('AttributeError', [StrV(name)]))
        raise AnalysisError('getattr %r.%s' % (o, name))

    def setattr(self, st, o, name, v):
        def f(st, o):
            if isinstance(o, Ref):
                r = st.get(o.id)
                if r.kind == 'obj':
                    p = self.find_attr(st, r.cls, name)
                    if isinstance(p, PropV):
                        if p.set is None:
                            self.do_raise(st, ExcV('AttributeError', [StrV(name)]))
                        self.call(st, p.set, [o, v], {})
                        return
                    st.mut(o.id).d[name] = v
                    return
            if isinstance(o, ModV) and o.id is not None:
                st.mut(o.id).d[name] = v
                return
            if isinstance(o, ClassV):
                st.mut(o.id).d[name] = v
                return
            if isinstance(o, FuncV):
                if o.attrs is not None:
                    st.mut(o.attrs).d[name] = v
                return
            if isinstance(o, UnkV):
                return
            if isinstance(o, ArrV):
                if name == 'shape':
                    self.unknown('set shape')
                    return
                self.do_raise(st, ExcV('AttributeError', [StrV(name)]))
            if isinstance(o, (ModV, BuiltinV)):
                return
            self.do_raise(st, ExcV('AttributeError', [StrV(name)]))
        self.on(st, o, f)

    # ---------------------------------------------------------------- subscripts
    def getitem(self, st, o, i):
        return self.on(st, o, lambda s, x: self.getitem1(s, x, i))

    def getitem1(self, st, o, i):
        if isinstance(o, UnkV):
            return self.unknown('item of unknown')
        if isinstance(o, ArrV):
            return self.arr_getitem(st, o, i)
        if isinstance(o, Ref):
            r = st.get(o.id)
            if isinstance(r, PhiRec):
                return self.unknown('list of unknown shape')
            if r.kind == 'dict':
                def f(st, i):
                    v = self.dict_find(st, r, self.to_key(i))
                    if v is None:
                        return self.unknown('dict lookup')
                    return self.defined(st, v, i, 'KeyError')
                return self.on(st, i, f)
            if r.kind == 'list':
                return self.on(st, i, lambda s, j: self.list_getitem(s, o, j))
            if r.kind == 'obj':
                m = self.find_attr(st, r.cls, '__getitem__')
                if m is None:
                    self.do_raise(st, ExcV('TypeError', [StrV('not subscriptable')]))
                return self.call(st, Bound(m, o), [i], {})
        if isinstance(o, TupleV):
            def g(st, i):
                if isinstance(i, SliceV):
                    a, b, c = [self.to_int_const(x) for x in (i.start, i.stop, i.step)]
                    if '?' in (a, b, c):
                        return self.unknown('tuple slice')
                    return TupleV(o.items[a:b:c])
                if isinstance(i, (NumV, BoolV)):
                    t = st.F.simp(self.as_num(i).t)
                    k = t.int_const()
                    if k is not None:
                        if -len(o.items) <= k < len(o.items):
                            return o.items[k]
                        self.do_raise(st, ExcV('IndexError', [StrV('tuple index out of range')]))
                    n = len(o.items)
                    self.raise_if(st, c_not(c_and([le(num(-n), t), lt(t, num(n))])), 'IndexError')
                    v = o.items[-1]
                    tt = norm_index(st, t, num(n))
                    for k in range(n - 2, -1, -1):
                        v = merge_val(st.F.reduce(eq(tt, num(k))), o.items[k], v)
                    return v
                if isinstance(i, UnkV):
                    return self.unknown('tuple index')
                self.do_raise(st, ExcV('TypeError', [StrV('tuple indices')]))
            return self.on(st, i, g)
        if isinstance(o, StrV):
            return self.str_getitem(st, o, i)
        if isinstance(o, RangeV):
            t = self.as_num(i)
            if t is not None:
                n = self.range_len(st, o)
                self.raise_if(st, c_not(c_and([le(-n, t.t), lt(t.t, n)])), 'IndexError')
                return NumV(o.lo + o.step * norm_index(st, t.t, n), 'int')
            return self.unknown('range slice')
        if isinstance(o, BuiltinV) or isinstance(o, ModV):
            return self.unknown('item of external')
        if isinstance(o, (NumV, BoolV, NoneT, FuncV, Bound, ExcV)):
            if isinstance(o, NumV) and o.ty.startswith('np'):
                self.do_raise(st, ExcV('IndexError', [StrV('invalid index to scalar variable.')]))
            self.do_raise(st, ExcV('TypeError', [StrV('not subscriptable')]))
        return self.unknown('subscript')

    def to_int_const(self, v):
        if isinstance(v, NoneT):
            return None
        if isinstance(v, NumV):
            k = v.t.int_const()
            return '?' if k is None else k
        return '?'

    def setitem(self, st, o, i, v):
        def f(st, o):
            if isinstance(o, UnkV):
                return
            if isinstance(o, ArrV):
                self.arr_setitem(st, o, i, v)
                return
            if isinstance(o, Ref):
                r = st.get(o.id)
                if r.kind == 'dict':
                    self.dict_store(st, o.id, self.to_key(i), v)
                    return
                if r.kind == 'list':
                    self.on(st, i, lambda s, j: self.list_setitem(s, o, j, v))
                    return
                if r.kind == 'obj':
                    m = self.find_attr(st, r.cls, '__setitem__')
                    if m is not None:
                        self.call(st, Bound(m, o), [i, v], {})
                        return
            self.do_raise(st, ExcV('TypeError', [StrV('does not support item assignment')]))
        self.on(st, o, f)

    # ---------------------------------------------------------------- lists
    def seg_count(self, s):
        """number of elements contributed by a segment or None"""
        if s[0] == 'one':
            return num(1)
        if s[0] == 'rep':
            k = num(0)
            for x in s[3]:
                c = self.seg_count(x)
                if c is None or s[2] in num_syms(c):
                    return None
                k = k + c
            return s[1] * k
        return None

    def list_len(self, st, o):
        r = st.get(o.id)
        n = num(0)
        if not isinstance(r, ListRec):
            return None
        for s in r.segs:
            c = self.seg_count(s)
            if c is None:
                return None
            n = n + c
        return n

    def list_getitem(self, st, o, i):
        r = st.get(o.id)
        if isinstance(r, PhiRec):
            return self.unknown('list index')
        if isinstance(i, SliceV):
            items = self.const_items(st, o)
            a, b, c = [self.to_int_const(x) for x in (i.start, i.stop, i.step)]
            if items is not None and '?' not in (a, b, c):
                return self.new_list(st, items[a:b:c])
            if c in (None, 1) and b is None and isinstance(a, int) and a >= 0 and \
                    all(s[0] == 'one' for s in r.segs[:a]) and len(r.segs) >= a:
                return Ref(st.new('list', ListRec(r.segs[a:])))
            return self.unknown('list slice')
        iv = self.as_num(i)
        if iv is None:
            if isinstance(i, UnkV):
                return self.unknown('list index')
            self.do_raise(st, ExcV('TypeError', [StrV('list indices')]))
        n = self.list_len(st, o)
        t = st.F.simp(iv.t)
        if n is None:
            # a leading constant prefix can still be addressed
            k = t.int_const()
            if k is not None and 0 <= k < len(r.segs) and all(s[0] == 'one' for s in r.segs[:k + 1]):
                return r.segs[k][1]
            return self.unknown('list index')
        self.raise_if(st, c_not(c_and([le(-n, t), lt(t, n)])), 'IndexError', StrV('list index out of range'))
        t = norm_index(st, t, n)
        return self.seg_pick(st, r.segs, t)

    def seg_pick(self, st, segs, t):
        off = num(0)
        cands = []
        for s in segs:
            c = self.seg_count(s)
            inside = c_and([le(off, t), lt(t, off + c)])
            d = st.F.decide(inside)
            if d is not False:
                cands.append((inside, s, off))
                if d is True:
                    cands = cands[-1:]
                    break
            off = off + c
        if not cands:
            return self.unknown('list pick')
        vals = []
        for inside, s, off in cands:
            if s[0] == 'one':
                vals.append((inside, s[1]))
            else:
                k = num(0)
                for x in s[3]:
                    k = k + self.seg_count(x)
                kc = k.int_const()
                if not kc:
                    return self.unknown('list pick')
                rel = st.F.simp(t - off)
                it = st.F.simp(T.fdiv(rel, k)) if kc != 1 else rel
                r = st.F.simp(T.mod_(rel, k)) if kc != 1 else num(0)
                mp = {s[2]: it}
                sub = [self_subst_seg(st, x, mp) for x in s[3]]
                vals.append((inside, self.seg_pick(st, sub, r)))
        v = vals[-1][1]
        for c, x in reversed(vals[:-1]):
            v = merge_val(st.F.reduce(c), x, v)
        return v

    def list_setitem(self, st, o, i, v):
        items = self.const_items(st, o)
        k = self.to_int_const(i) if isinstance(i, NumV) else '?'
        if items is not None and k not in ('?', None):
            if not (-len(items) <= k < len(items)):
                self.do_raise(st, ExcV('IndexError'))
            items[k] = v
            st.mut(o.id).segs = [('one', x) for x in items]
            return
        self.unknown('list store')
        st.mut(o.id).segs = [('unk',)]

    def list_del(self, st, o, i):
        if isinstance(o, Ref):
            k = self.to_int_const(i) if isinstance(i, NumV) else '?'
            r = st.get(o.id)
            if r.kind == 'list' and isinstance(r, ListRec) and isinstance(k, int):
                self.list_pop(st, o, k)
                return
            if r.kind == 'dict':
                k = self.to_key(i)
                if k is None or not self.plain_dict(r) or has_sym(k):
                    self.unknown('dict del')
                    st.mut(o.id).d = {'%unk': UNDEF}
                    return
                if k not in r.d:
                    self.do_raise(st, ExcV('KeyError', [i]))
                st.mut(o.id).d.pop(k)
                return
        self.unknown('del item')

    def list_pop(self, st, o, k):
        r = st.mut(o.id)
        if k >= 0:
            if len(r.segs) > k and all(s[0] == 'one' for s in r.segs[:k + 1]):
                return r.segs.pop(k)[1]
        else:
            if len(r.segs) >= -k and all(s[0] == 'one' for s in r.segs[k:]):
                return r.segs.pop(k)[1]
        if not r.segs:
            self.do_raise(st, ExcV('IndexError', [StrV('pop from empty list')]))
        r.segs = [('unk',)]
        return self.unknown('list pop')

    def list_extend(self, st, l, it):
        def f(st, it):
            segs = self.as_segs(st, it)
            if segs is None:
                st.mut(l.id).segs.append(('unk',))
                self.unknown('list extend')
            else:
                st.mut(l.id).segs.extend(segs)
        self.on(st, it, f)

    def as_segs(self, st, v):
        if isinstance(v, Ref):
            r = st.get(v.id)
            if r.kind == 'list' and isinstance(r, ListRec):
                return list(r.segs)
        xs = self.const_items(st, v)
        if xs is not None:
            return [('one', x) for x in xs]
        if isinstance(v, RangeV):
            i = fresh_atom('r')
            n = self.range_len(st, v)
            return [('rep', n, i, (('one', NumV(v.lo + v.step * from_atom(i), 'int')),))]
        if isinstance(v, ArrV) and v.shape:
            i = fresh_atom('r')
            n = v.shape[0]
            s2 = st.fork(le(num(0), from_atom(i)), lt(from_atom(i), n))
            x = self.arr_getitem(s2, v, NumV(from_atom(i), 'int'))
            if isinstance(x, ArrV):
                return None
            return [('rep', n, i, (('one', x),))]
        return None

    # ---------------------------------------------------------------- ranges
    def range_len(self, st, v):
        s = v.step.int_const()
        if s is None:
            return None
        if s > 0:
            d = v.hi - v.lo
        else:
            d = v.lo - v.hi
            s = -s
        d = st.F.simp(d)
        n = d if s == 1 else T.fdiv(d + (s - 1), num(s))
        r = st.F.decide(le(num(0), d))
        if r is True:
            return st.F.simp(n)
        if r is False:
            return num(0)
        return ite(le(num(0), d), n, num(0))

    # ---------------------------------------------------------------- truth, compare
    def as_num(self, v):
        if isinstance(v, NumV):
            return v
        if isinstance(v, BoolV):
            return NumV(ite(v.c, num(1), num(0)), 'bool')
        return None

    def truth(self, st, v):
        """-> Cond or UnkV"""
        if isinstance(v, BoolV):
            return v.c
        if isinstance(v, NumV):
            return ne(v.t, num(0))
        if isinstance(v, NoneT):
            return FALSE
        if isinstance(v, StrV):
            c = v.const()
            if c is not None:
                return cbool(bool(c))
            if any(isinstance(p, str) for p in v.parts):
                return TRUE
            if any(p[0] == 'f' and isinstance(p[1], (NumV, BoolV)) for p in v.parts):
                return TRUE
            return UnkV('string truth')
        if isinstance(v, TupleV):
            return cbool(bool(v.items))
        if isinstance(v, PhiV):
            a, b = self.truth(st, v.a), self.truth(st, v.b)
            if isinstance(a, UnkV) or isinstance(b, UnkV):
                return UnkV('truth')
            return c_or([c_and([v.c, a]), c_and([c_not(v.c), b])])
        if isinstance(v, Ref):
            r = st.get(v.id)
            if r.kind == 'dict':
                return cbool(bool(r.d)) if self.plain_dict(r) else UnkV('dict truth')
            if r.kind == 'list':
                n = self.list_len(st, v)
                if n is None:
                    if isinstance(r, ListRec) and any(s[0] == 'one' for s in r.segs):
                        return TRUE
                    return UnkV('list truth')
                return ne(n, num(0))
            if r.kind == 'obj':
                m = self.find_attr(st, r.cls, '__bool__') or self.find_attr(st, r.cls, '__nonzero__')
                if m is not None:
                    return self.truth(st, self.call(st, Bound(m, v), [], {}))
                m = self.find_attr(st, r.cls, '__len__')
                if m is not None:
                    return self.truth(st, self.call(st, Bound(m, v), [], {}))
            return TRUE
        if isinstance(v, ArrV):
            if all(s.int_const() == 1 for s in v.shape):
                return ne(self.arr_elem(st, v, [num(0)] * len(v.shape)), num(0))
            one = c_and([eq(s, num(1)) for s in v.shape])
            self.raise_if(st, c_not(one), 'ValueError', StrV('truth value of an array is ambiguous'))
            return ne(self.arr_elem(st, v, [num(0)] * len(v.shape)), num(0))
        if isinstance(v, UnkV):
            return v
        if isinstance(v, RangeV):
            return ne(self.range_len(st, v), num(0))
        return TRUE

    def compare(self, st, op, a, b):
        if op == 'Is' or op == 'IsNot':
            r = self.on2(st, a, b, self.is_same)
            if isinstance(r, UnkV):
                return r
            return BoolV(r.c if op == 'Is' else c_not(r.c))
        if op in ('In', 'NotIn'):
            r = self.on2(st, a, b, self.contains)
            if isinstance(r, UnkV):
                return r
            return BoolV(r.c if op == 'In' else c_not(r.c))
        return self.on2(st, a, b, lambda s, x, y: self.cmp2(s, op, x, y))

    def is_same(self, st, a, b):
        if isinstance(a, UnkV) or isinstance(b, UnkV):
            return UnkV('is')
        if isinstance(a, NoneT) or isinstance(b, NoneT):
            return BoolV(cbool(a is b))
        if isinstance(a, BoolV) and isinstance(b, BoolV):
            return BoolV(c_or([c_and([a.c, b.c]), c_and([c_not(a.c), c_not(b.c)])]))
        if type(a) is not type(b):
            return BoolV(FALSE)
        if isinstance(a, NumV):
            if a.ty != b.ty:
                return BoolV(FALSE)
            return UnkV('is on numbers') if a.t != b.t else BoolV(TRUE)
        return BoolV(cbool(same(a, b)))

    def contains(self, st, a, b):
        if isinstance(a, UnkV) or isinstance(b, UnkV):
            return UnkV('in')
        if isinstance(b, Ref) and st.get(b.id).kind == 'dict':
            v = self.dict_find(st, st.get(b.id), self.to_key(a))
            if v is None:
                return UnkV('in dict')
            return BoolV(defined_cond(v))
        if isinstance(b, StrV) and isinstance(a, StrV):
            x, y = a.const(), b.const()
            if x is not None and y is not None:
                return BoolV(cbool(x in y))
            return UnkV('in string')
        if isinstance(b, RangeV) and isinstance(a, NumV) and b.step.int_const() == 1:
            return BoolV(c_and([le(b.lo, a.t), lt(a.t, b.hi)]))
        xs = self.const_items(st, b)
        if xs is None:
            return UnkV('in')
        cs = []
        for x in xs:
            r = self.cmp2(st, 'Eq', a, x)
            if not isinstance(r, BoolV):
                return UnkV('in')
            cs.append(r.c)
        return BoolV(c_or(cs))

    def cmp2(self, st, op, a, b):
        if isinstance(a, UnkV) or isinstance(b, UnkV):
            return UnkV('compare')
        if isinstance(a, ArrV) or isinstance(b, ArrV):
            return self.arr_compare(st, op, a, b)
        x, y = self.as_num(a), self.as_num(b)
        if x is not None and y is not None:
            npf = x.ty.startswith('np') or y.ty.startswith('np')
            if op == 'Eq':
                return BoolV(eq(x.t, y.t), npf)
            if op == 'NotEq':
                return BoolV(ne(x.t, y.t), npf)
            cx = 'complex' in (x.ty, y.ty) or 'npcomplex' in (x.ty, y.ty)
            if cx:
                if not npf:
                    self.do_raise(st, ExcV('TypeError', [StrV('complex comparison')]))
                if x.t.sort == 'complex' or y.t.sort == 'complex':
                    return UnkV('complex order')
            return BoolV({'Lt': lt, 'LtE': le, 'Gt': lambda p, q: lt(q, p),
                          'GtE': lambda p, q: le(q, p)}[op](x.t, y.t), npf)
        if isinstance(a, StrV) and isinstance(b, StrV):
            p, q = a.const(), b.const()
            if p is not None and q is not None:
                return BoolV(cbool({'Eq': p == q, 'NotEq': p != q, 'Lt': p < q, 'LtE': p <= q,
                                    'Gt': p > q, 'GtE': p >= q}[op]))
            r = str_differs(a, b)
            if r and op in ('Eq', 'NotEq'):
                return BoolV(cbool(op == 'NotEq'))
            return UnkV('string compare')
        if isinstance(a, TupleV) and isinstance(b, TupleV):
            if len(a.items) != len(b.items):
                if op in ('Eq', 'NotEq'):
                    return BoolV(cbool(op == 'NotEq'))
                return UnkV('tuple order')
            cs = []
            for p, q in zip(a.items, b.items):
                r = self.cmp2(st, 'Eq', p, q)
                if not isinstance(r, BoolV):
                    return UnkV('tuple compare')
                cs.append(r.c)
            if op == 'Eq':
                return BoolV(c_and(cs))
            if op == 'NotEq':
                return BoolV(c_not(c_and(cs)))
            # lexicographic
            strict = op in ('Lt', 'Gt')
            res = cbool(not strict)
            for p, q, e in reversed(list(zip(a.items, b.items, cs))):
                r = self.cmp2(st, 'Lt' if op in ('Lt', 'LtE') else 'Gt', p, q)
                if not isinstance(r, BoolV):
                    return UnkV('tuple order')
                res = c_or([r.c, c_and([e, res])])
            return BoolV(res)
        for p, q, o in ((a, b, op), (b, a, {'Lt': 'Gt', 'Gt': 'Lt', 'LtE': 'GtE', 'GtE': 'LtE'}.get(op, op))):
            if isinstance(p, Ref) and st.get(p.id).kind == 'obj':
                m = self.find_attr(st, st.get(p.id).cls, CMPN[o])
                if m is not None:
                    r = self.call(st, Bound(m, p), [q], {})
                    if not (isinstance(r, BuiltinV) and r.name == 'NotImplemented'):
                        return r
        if isinstance(a, Ref) and isinstance(b, Ref):
            if a.id == b.id:
                r = TRUE
            else:
                xa, xb = self.const_items(st, a), self.const_items(st, b)
                if xa is not None and xb is not None and st.get(a.id).kind == 'list' == st.get(b.id).kind:
                    return self.cmp2(st, op, TupleV(xa), TupleV(xb))
                if st.get(a.id).kind == 'list' and st.get(b.id).kind == 'list':
                    return UnkV('list compare')
                r = FALSE
            if op in ('Eq', 'NotEq'):
                return BoolV(r if op == 'Eq' else c_not(r))
        if op == 'Eq':
            return BoolV(cbool(same(a, b)))
        if op == 'NotEq':
            return BoolV(cbool(not same(a, b)))
        self.do_raise(st, ExcV('TypeError', [StrV('ordering not supported')]))

    # ---------------------------------------------------------------- arithmetic
    def binop(self, st, op, a, b):
        return self.on2(st, a, b, lambda s, x, y: self.binop2(s, op, x, y))

    def binop2(self, st, op, a, b):
        if isinstance(a, UnkV) or isinstance(b, UnkV):
            return self.unknown('operand')
        isobj = lambda v: isinstance(v, Ref) and st.get(v.id).kind == 'obj'
        if isobj(a) or isobj(b):
            return self.obj_binop(st, op, a, b)
        if isinstance(a, ArrV) or isinstance(b, ArrV):
            return self.arr_binop(st, op, a, b)
        if isinstance(a, BoolV) and isinstance(b, BoolV) and op in ('BitAnd', 'BitOr', 'BitXor'):
            if op == 'BitAnd':
                return BoolV(c_and([a.c, b.c]), a.np or b.np)
            if op == 'BitOr':
                return BoolV(c_or([a.c, b.c]), a.np or b.np)
            return BoolV(c_or([c_and([a.c, c_not(b.c)]), c_and([c_not(a.c), b.c])]))
        x, y = self.as_num(a), self.as_num(b)
        if x is not None and y is not None:
            return self.num_binop(st, op, x, y)
        if isinstance(a, StrV):
            if op == 'Add' and isinstance(b, StrV):
                return StrV(*(a.parts + b.parts))
            if op == 'Mod':
                return self.str_mod(st, a, b)
            if op == 'Mult' and y is not None:
                k = y.t.int_const()
                if k is not None and a.const() is not None:
                    return StrV(a.const() * k)
                return self.unknown('string repeat')
        if isinstance(a, TupleV) and isinstance(b, TupleV) and op == 'Add':
            return TupleV(a.items + b.items)
        if op == 'Mult' and (isinstance(a, (TupleV, Ref)) or isinstance(b, (TupleV, Ref))):
            if y is None:
                a, b, x, y = b, a, y, x
            if y is not None:
                return self.seq_repeat(st, a, y)
        if op == 'Add' and isinstance(a, Ref) and isinstance(b, Ref) and \
                st.get(a.id).kind == 'list' == st.get(b.id).kind:
            sa, sb = self.as_segs(st, a), self.as_segs(st, b)
            if sa is None or sb is None:
                return self.unknown('list add')
            return Ref(st.new('list', ListRec(sa + sb)))
        self.do_raise(st, ExcV('TypeError', [StrV('unsupported operand type(s)')]))

    def seq_repeat(self, st, a, y):
        k = y.t.int_const()
        if isinstance(a, TupleV):
            if k is not None:
                return TupleV(a.items * k)
            return self.unknown('tuple repeat')
        segs = self.as_segs(st, a)
        if segs is None:
            return self.unknown('list repeat')
        if k is not None and k <= 64:
            return Ref(st.new('list', ListRec(segs * max(k, 0))))
        n = y.t
        if st.F.decide(le(num(0), n)) is not True:
            n = ite(le(num(0), n), n, num(0))
        return Ref(st.new('list', ListRec([('rep', n, fresh_atom('r'), tuple(segs))])))

    def obj_binop(self, st, op, a, b):
        n = OPN.get(op)
        tried = False
        if isinstance(a, Ref) and st.get(a.id).kind == 'obj':
            m = self.find_attr(st, st.get(a.id).cls, '__%s__' % n)
            if m is not None:
                r = self.call(st, Bound(m, a), [b], {})
                r2 = self.not_impl(r)
                if r2 is None:
                    return r
                if r2 == 'mixed':
                    return self.unknown('mixed NotImplemented')
        if isinstance(b, Ref) and st.get(b.id).kind == 'obj':
            if isinstance(a, ArrV):
                return self.unknown('array with object operand')
            m = self.find_attr(st, st.get(b.id).cls, '__r%s__' % n)
            if m is not None:
                r = self.call(st, Bound(m, b), [a], {})
                r2 = self.not_impl(r)
                if r2 is None:
                    return r
        self.do_raise(st, ExcV('TypeError', [StrV('unsupported operand type(s)')]))

    def not_impl(self, r):
        if isinstance(r, BuiltinV) and r.name == 'NotImplemented':
            return 'yes'
        if isinstance(r, PhiV):
            x, y = self.not_impl(r.a), self.not_impl(r.b)
            if x or y:
                return 'mixed'
        return None

    def num_binop(self, st, op, a, b):
        ty = ty_join(a.ty, b.ty)
        if ty == 'bool':
            ty = 'int'
        isnp = a.ty.startswith('np') or b.ty.startswith('np')
        x, y = a.t, b.t
        if isnp and not ty.startswith('np'):
            ty = {'int': 'npint', 'float': 'npfloat', 'complex': 'npcomplex'}[ty]
        if op == 'Add':
            return NumV(x + y, ty)
        if op == 'Sub':
            return NumV(x - y, ty)
        if op == 'Mult':
            return NumV(x * y, ty)
        if op == 'Div':
            if not isnp:
                self.raise_if(st, eq(y, num(0)), 'ZeroDivisionError', StrV('division by zero'))
            ty = {'int': 'float', 'npint': 'npfloat'}.get(ty, ty)
            if y.is_zero():
                return NumV(T.from_atom(mk_atom('divzero', (x,), 'real')), ty)
            return NumV(x / y, ty)
        if op == 'FloorDiv':
            if not isnp:
                self.raise_if(st, eq(y, num(0)), 'ZeroDivisionError', StrV('division by zero'))
            if y.is_zero():
                return self.unknown('floordiv zero')
            if x.sort == 'int' and y.sort == 'int':
                return NumV(st.F.simp(T.fdiv(x, y)), ty)
            return NumV(floor_(x / y), ty)
        if op == 'Mod':
            if not isnp:
                self.raise_if(st, eq(y, num(0)), 'ZeroDivisionError', StrV('modulo by zero'))
            if y.is_zero():
                return self.unknown('mod zero')
            if x.sort == 'int' and y.sort == 'int':
                return NumV(st.F.simp(T.mod_(x, y)), ty)
            if ty in ('int', 'npint') and y.int_const() is None:
                return NumV(from_atom(mk_atom('mod', (x, y), 'int')), ty)
            return NumV(x - y * floor_(x / y), ty)
        if op == 'Pow':
            return self.num_pow(st, a, b, ty)
        if x.sort == 'int' and y.sort == 'int' and op in ('BitAnd', 'BitOr', 'BitXor', 'LShift', 'RShift'):
            p, q = x.int_const(), y.int_const()
            if p is not None and q is not None:
                import operator
                f = {'BitAnd': operator.and_, 'BitOr': operator.or_, 'BitXor': operator.xor,
                     'LShift': operator.lshift, 'RShift': operator.rshift}[op]
                return NumV(num(f(p, q)), ty)
            if op == 'RShift' and q is not None and q >= 0:
                return NumV(st.F.simp(T.fdiv(x, num(2 ** q))), ty)
            if op == 'LShift' and q is not None and q >= 0:
                return NumV(x.scale(2 ** q), ty)
            if op == 'BitAnd' and q == 1:
                return NumV(st.F.simp(T.mod_(x, num(2))), ty)
            return self.unknown('bit operation')
        self.do_raise(st, ExcV('TypeError', [StrV('unsupported operand type(s)')]))

    def num_pow(self, st, a, b, ty):
        r = self.pow_term(st, a.t, b.t)
        if r is None:
            return self.unknown('power')
        if b.t.sort == 'int' and b.ty in ('int', 'bool', 'npint') and a.ty in ('int', 'bool') and b.ty != 'npint':
            k = b.t.int_const()
            if k is None or k < 0:
                ty = ty_join(ty, 'float') if r.sort != 'int' else ty
        if a.t.is_zero() and b.t.int_const() is not None and b.t.int_const() < 0:
            self.raise_if(st, TRUE, 'ZeroDivisionError')
        return NumV(r, ty)

    def pow_term(self, st, x, y):
        k = y.int_const()
        if k is not None and abs(k) <= 12:
            if k >= 0:
                return x ** k
            if x.is_zero():
                return None
            return inverse(x) ** (-k)
        c = y.const()
        if c is not None and c.denominator == 2 and abs(c) < 6:
            s = T.sqrt_(x)
            kk = c.numerator
            return s ** kk if kk > 0 else inverse(s) ** (-kk)
        if y.sort == 'int':
            if x == T.I:
                return T.ipow(y)
            if x == -T.I:
                return T.ipow(y.scale(3))
            xc = x.const()
            if xc == -1:
                return T.ipow(y.scale(2))
            if xc == 1:
                return num(1)
        return from_atom(mk_atom('powc', (x, y), 'complex' if x.sort == 'complex' else
                                 ('int' if x.sort == 'int' and y.sort == 'int' and
                                  st.F.decide(le(num(0), y)) is True else 'real')))


class HavocV(UnkV):
    def __init__(self, key):
        UnkV.__init__(self, 'loop-carried value')
        self.key = key
        self.read = False


from . import loops as _loops
_loops.HavocV = HavocV


def self_subst_seg(st, s, mp):
    sub = Subst(st, mp, FreshIds(st, mp))
    return sub.seg(s)


class FreshIds(object):
    """objects whose record mentions one of the substituted iteration symbols"""
    def __init__(self, st, mp):
        self.st, self.mp = st, mp
        self.memo = {}

    def __contains__(self, i):
        r = self.memo.get(i)
        if r is None:
            self.memo[i] = False
            rec = self.st.heap.get(i)
            r = rec is not None and any(rec_mentions(self.st, rec, a, set([i])) for a in self.mp)
            self.memo[i] = r
        return r


def rec_mentions(st, rec, a, seen):
    if isinstance(rec, DictRec):
        if rec.kind not in ('obj', 'dict', 'frame'):
            return False
        return any(val_mentions(st, v, a, seen) for v in rec.d.values())
    if isinstance(rec, BufRec):
        c = rec.content
        return any(a in T.num_syms(x) for x in rec.shape) or \
            (a in T._syms_any(c) if not isinstance(c, tuple) else any(a in T._syms_any(x) for x in c))
    if isinstance(rec, ListRec) or isinstance(rec, FileRec):
        return any(seg_mentions(st, s, a, seen) for s in rec.segs)
    if isinstance(rec, PhiRec):
        return a in T.cond_syms(rec.c) or rec_mentions(st, rec.a, a, seen) or rec_mentions(st, rec.b, a, seen)
    return False


def seg_mentions(st, s, a, seen):
    if s[0] == 'one':
        return val_mentions(st, s[1], a, seen)
    if s[0] == 'rep':
        return a in T.num_syms(s[1]) or any(seg_mentions(st, x, a, seen) for x in s[3])
    return False


def val_mentions(st, v, a, seen):
    if isinstance(v, NumV):
        return a in T.num_syms(v.t)
    if isinstance(v, BoolV):
        return a in T.cond_syms(v.c)
    if isinstance(v, TupleV):
        return any(val_mentions(st, x, a, seen) for x in v.items)
    if isinstance(v, StrV):
        return any(not isinstance(p, str) and any(isinstance(x, Val) and val_mentions(st, x, a, seen)
                                                  for x in p[1:]) for p in v.parts)
    if isinstance(v, ArrV):
        if any(a in T.num_syms(x) for x in v.imap + v.shape):
            return True
        return id_mentions(st, v.buf, a, seen)
    if isinstance(v, Ref):
        return id_mentions(st, v.id, a, seen)
    if isinstance(v, PhiV):
        return a in T.cond_syms(v.c) or val_mentions(st, v.a, a, seen) or val_mentions(st, v.b, a, seen)
    if isinstance(v, SliceV):
        return any(val_mentions(st, x, a, seen) for x in (v.start, v.stop, v.step))
    if isinstance(v, RangeV):
        return any(a in T.num_syms(x) for x in (v.lo, v.hi, v.step))
    if isinstance(v, Bound):
        return val_mentions(st, v.slf, a, seen)
    return False


def id_mentions(st, i, a, seen):
    if i in seen:
        return False
    seen.add(i)
    rec = st.heap.get(i)
    return rec is not None and rec_mentions(st, rec, a, seen)


def has_undef(v):
    if isinstance(v, PhiV):
        return has_undef(v.a) or has_undef(v.b)
    return isinstance(v, (UndefV,))


def Facts_of(base, st):
    return TOP.add(*base)


def flat(parts):
    out = []
    for p in parts:
        if isinstance(p, list):
            out.extend(p)
        else:
            out.append(p)
    return out


def real_ty(ty):
    return {'complex': 'float', 'npcomplex': 'npfloat'}.get(ty, ty)


def norm_index(st, t, n):
    r = st.F.decide(le(num(0), t))
    if r is True:
        return t
    if r is False:
        return st.F.simp(t + n)
    return ite(lt(t, num(0)), t + n, t)


def floor_(x):
    if x.sort == 'int':
        return x
    c = x.const()
    if c is not None:
        return num(c.numerator // c.denominator)
    # p/k with integer p
    from math import gcd
    den = 1
    for v in x.t.values():
        den = den * v.denominator // gcd(den, v.denominator)
    y = x.scale(den)
    if den > 1 and y.sort == 'int':
        return T.fdiv(y, num(den))
    return from_atom(mk_atom('floor', (x,), 'int'))


def str_differs(a, b):
    """strings certainly different (constant prefixes differ)"""
    pa = a.parts[0] if a.parts and isinstance(a.parts[0], str) else ''
    pb = b.parts[0] if b.parts and isinstance(b.parts[0], str) else ''
    n = min(len(pa), len(pb))
    if pa[:n] != pb[:n]:
        return True
    # a number can never spell a word
    for x, y in ((a, b), (b, a)):
        c = y.const()
        if c is not None and x.parts and not isinstance(x.parts[0], str) and x.parts[0][0] == 'f' \
                and isinstance(x.parts[0][1], NumV) and x.parts[0][1].ty in ('int', 'float', 'npfloat', 'npint'):
            if not c or c[0].isalpha() and c[0] not in 'in' or c == '':
                return True
    return False


_gen_cache = {}


def is_generator(node):
    r = _gen_cache.get(node)
    if r is None:
        r = False
        st = list(node.body)
        while st:
            n = st.pop()
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                r = True
                break
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            st.extend(ast.iter_child_nodes(n))
        _gen_cache[node] = r
    return r


OPN = {'Add': 'add', 'Sub': 'sub', 'Mult': 'mul', 'Div': 'truediv', 'FloorDiv': 'floordiv', 'Mod': 'mod',
       'Pow': 'pow', 'BitAnd': 'and', 'BitOr': 'or', 'BitXor': 'xor', 'LShift': 'lshift',
       'RShift': 'rshift', 'MatMult': 'matmul'}
CMPN = {'Eq': '__eq__', 'NotEq': '__ne__', 'Lt': '__lt__', 'LtE': '__le__', 'Gt': '__gt__', 'GtE': '__ge__'}


def BuiltinBound(name, o):
    return Bound(BuiltinV(name), o)
