"""C24: every name, attribute, message and call form used in the package exists.

A scoping and call-form analysis of all modules (syntax trees only)."""
import ast
import builtins
import glob
import os
import re
import string
import symtable
from sa.harness import ROOT

PKG = 'spherepy'
GENERATED = ('csphi',)
# the documented public names (documentation/, README, docstrings of the pinned release)
PUBLIC = '''ScalarCoefs VectorCoefs ScalarPatternUniform TransversePatternUniform zeros_coefs ones_coefs random_coefs
zeros_patt_uniform ones_patt_uniform random_patt_uniform array abs mag mag2 compare_relative continue_sphere double_sphere
pretty_coefs spht vspht spht_slow ispht vispht ispht_slow L2_coef LInf_coef L2_patt LInf_patt sph_harmonic_tp scalar vector
err_msg use_cext sbesselj sbessely sbesselh1 sbesselh2 sbesselj_array sbessely_array sbesselj_sum sbessel_test_cross_product
simple_plot plot_mag_on_sphere plot_sphere_mag pcolor_coefs plot_coefs pysphi csphi file verify __version__ __author__
__use_cext__'''.split()
PUBLIC_IN = {
    'file': 'save_patt save_coef load_patt load_vpatt load_fdata load_coef load_vcoef'.split(),
    'verify': 'verify_spht verify_ispht verify_fdata verify_vspht verify_vispht'.split(),
}
CLASS_API = {
    'ScalarCoefs': 'nmax mmax size copy window angular_power_spectrum power'.split(),
    'VectorCoefs': 'nmax mmax size copy scoef1 scoef2'.split(),
    'ScalarPatternUniform': 'nrows ncols shape doublesphere array cdata is_symmetric single_val'.split(),
    'TransversePatternUniform': 'nrows ncols shape doublesphere array theta phi theta_double phi_double is_symmetric '
                                'single_val'.split(),
}
EXC = {k for k, v in vars(builtins).items() if isinstance(v, type) and issubclass(v, BaseException)}
MODNAMES = {'__name__', '__file__', '__doc__', '__package__', '__path__', '__spec__', '__loader__', '__builtins__'}


def loads_of(node):
    for x in ast.walk(node):
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
            yield x


class Module(object):
    def __init__(self, name, path):
        self.name, self.path = name, path
        self.rel = os.path.relpath(path, ROOT)
        self.src = open(path, newline='').read().replace('\r\n', '\n')
        self.tree = ast.parse(self.src, path)
        self.imports = {}           # alias -> dotted module
        self.stars = []
        self.bound = set(MODNAMES)
        self.funcs, self.classes, self.counts, self.opaque = {}, {}, {}, False
        self.parents = {}
        for p in ast.walk(self.tree):
            for c in ast.iter_child_nodes(p):
                self.parents[c] = p
        self.collect()

    def scope(self, x):
        """the function or class a node belongs to (None: module level)"""
        p = self.parents.get(x)
        while p is not None and not isinstance(p, (ast.FunctionDef, ast.ClassDef, ast.Lambda, ast.AsyncFunctionDef)):
            p = self.parents.get(p)
        return p

    def collect(self):
        for x in ast.walk(self.tree):
            sc = self.scope(x)
            if isinstance(x, ast.Global):
                self.bound.update(x.names)
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ('exec', 'globals', 'setattr', 'eval', 'vars'):
                self.opaque = True
            if sc is not None:
                continue
            if isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                self.put(x.name)
                (self.funcs if isinstance(x, ast.FunctionDef) else self.classes)[x.name] = x
            elif isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                self.put(x.id)
            elif isinstance(x, ast.ExceptHandler) and x.name:
                self.put(x.name)
            elif isinstance(x, ast.Import):
                for a in x.names:
                    self.put(a.asname or a.name.split('.')[0])
                    if a.asname:
                        self.imports[a.asname] = a.name
                    else:
                        self.imports[a.name.split('.')[0]] = a.name.split('.')[0]
            elif isinstance(x, ast.ImportFrom):
                for a in x.names:
                    if a.name == '*':
                        self.stars.append(x.module or '')
                    else:
                        self.put(a.asname or a.name)
                        self.imports.setdefault(a.asname or a.name, None)

    def put(self, n):
        self.bound.add(n)
        self.counts[n] = self.counts.get(n, 0) + 1

    def site(self, x):
        f = x
        while f is not None and not isinstance(f, ast.FunctionDef):
            f = self.parents.get(f)
        nm = f.name + ' ' if f is not None else ''
        c = self.parents.get(f)
        if isinstance(c, ast.ClassDef):
            nm = c.name + '.' + nm
        return '%s(%s:%d)' % (nm, self.rel, getattr(x, 'lineno', 0))

    def guarded(self, x, names):
        """inside a try whose handler catches one of the exceptions"""
        p, c = self.parents.get(x), x
        while p is not None:
            if isinstance(p, ast.Try) and any(c is s for s in p.body):
                for h in p.handlers:
                    t = h.type
                    ts = [t] if not isinstance(t, ast.Tuple) else t.elts
                    if t is None or any(getattr(e, 'id', '') in names + ('Exception', 'BaseException') for e in ts):
                        return True
            p, c = self.parents.get(p), p
        return False


class Package(object):
    def __init__(self):
        self.mods = {}
        for p in sorted(glob.glob(os.path.join(ROOT, PKG, '*.py'))):
            nm = os.path.basename(p)[:-3]
            self.mods[PKG if nm == '__init__' else PKG + '.' + nm] = Module(nm, p)
        self.subs = {k.split('.')[1] for k in self.mods if '.' in k}
        self.np = numpy_names()

    def names(self, dotted, seen=()):
        """names a package module defines (None: cannot be known)"""
        m = self.mods.get(dotted)
        if m is None or dotted in seen:
            return None if m is None else set()
        out = set(m.bound)
        if dotted == PKG:
            out |= self.subs
        for s in m.stars:
            r = self.exported(s, seen + (dotted,))
            if r is None:
                return None
            out |= r
        return out

    def exported(self, dotted, seen=()):
        m = self.mods.get(dotted)
        if m is None:
            return None
        for x in m.tree.body:
            if isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == '__all__' for t in x.targets):
                try:
                    return set(ast.literal_eval(x.value))
                except ValueError:
                    return None
        r = self.names(dotted, seen)
        return None if r is None else {n for n in r if not n.startswith('_')}

    def define(self, dotted, name, seen=()):
        """(module, node) of a function or class reached under a name, when it has one definition"""
        m = self.mods.get(dotted)
        if m is None or dotted in seen:
            return None
        if name in m.counts:
            if m.counts[name] == 1:
                d = m.funcs.get(name) or m.classes.get(name)
                if d is not None:
                    return m, d
            return None
        for s in m.stars:
            if name in (self.exported(s) or ()):
                return self.define(s, name, seen + (dotted,))
        return None


def numpy_names():
    for p in sorted(glob.glob('/opt/venv/lib/python3*/site-packages/numpy/__init__.pyi')) + \
            sorted(glob.glob('/usr/lib/python3*/dist-packages/numpy/__init__.pyi')):
        try:
            t = ast.parse(open(p).read())
        except SyntaxError:
            continue
        top, attrs = set(MODNAMES), set()
        for x in ast.walk(t):
            if isinstance(x, ast.ClassDef):
                for y in ast.walk(x):
                    if isinstance(y, ast.FunctionDef):
                        attrs.add(y.name)
                    if isinstance(y, ast.AnnAssign) and isinstance(y.target, ast.Name):
                        attrs.add(y.target.id)
        for x in t.body:
            for y in ([x] if not isinstance(x, ast.If) else ast.walk(x)):
                if isinstance(y, (ast.FunctionDef, ast.ClassDef)):
                    top.add(y.name)
                elif isinstance(y, ast.Assign):
                    top.update(n.id for z in y.targets for n in ast.walk(z) if isinstance(n, ast.Name))
                elif isinstance(y, ast.AnnAssign) and isinstance(y.target, ast.Name):
                    top.add(y.target.id)
                elif isinstance(y, (ast.Import, ast.ImportFrom)):
                    top.update((a.asname or a.name).split('.')[0] for a in y.names)
        d = os.path.dirname(p)
        top.update(f.split('.')[0] for f in os.listdir(d))
        return top, attrs
    return None


class Report(object):
    """one obligation per module and rule"""
    def __init__(self, ck, m, rule):
        self.ck, self.m, self.rule, self.n, self.bad = ck, m, rule, 0, []

    def ok(self):
        self.n += 1

    def fail(self, x, why):
        self.n += 1
        self.bad.append((self.m.site(x), why))

    def done(self):
        nm = '%s: %s' % (self.m.rel, self.rule)
        if not self.bad:
            self.ck.proved(nm, self.m.rel, '%d uses' % self.n)
        for i, (s, why) in enumerate(self.bad):
            self.ck.violated(nm + ('' if i == 0 else ' #%d' % (i + 1)), why, s)


def each(rule):
    def wrap(f):
        def run(ck):
            P = Package()
            ck.functions.update({'%s.%s' % (k, n): 1 for k, m in P.mods.items() for n in list(m.funcs) + list(m.classes)})
            for k, m in P.mods.items():
                if m.name in GENERATED:
                    continue
                r = Report(ck, m, rule)
                f(P, k, m, r)
                r.done()
        return run
    return wrap


# ---------------------------------------------------------------- rules
@each('names are defined')
def t_names(P, dotted, m, r):
    known = P.names(dotted)
    if known is None:
        known = None if any(s not in P.mods for s in m.stars) else m.bound
    bi = set(dir(builtins))
    top = symtable.symtable(m.src, m.path, 'exec')
    where = {}
    for x in ast.walk(m.tree):
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
            where.setdefault(x.id, []).append(x)

    def walk(t):
        for s in t.get_symbols():
            n = s.get_name()
            if not s.is_referenced():
                continue
            isglob = s.is_global() or (t.get_type() == 'module')
            if isglob and known is not None and n not in known and n not in bi and not m.opaque:
                xs = [x for x in where.get(n, []) if not m.guarded(x, ('NameError',))]
                if xs:
                    r.fail(xs[0], 'name %s is not defined' % n)
                    continue
            r.ok()
        for c in t.get_children():
            walk(c)
    walk(top)


def bound_in(x):
    """names a statement or expression binds (not looking into nested functions)"""
    out = set()
    todo = [x]
    while todo:
        y = todo.pop()
        if isinstance(y, (ast.FunctionDef, ast.ClassDef)):
            out.add(y.name)
            continue
        if isinstance(y, ast.Lambda):
            continue
        if isinstance(y, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            out |= {z.target.id for z in ast.walk(y) if isinstance(z, ast.NamedExpr)}
            continue
        if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store):
            out.add(y.id)
        if isinstance(y, ast.ExceptHandler) and y.name:
            out.add(y.name)
        if isinstance(y, (ast.Import, ast.ImportFrom)):
            out.update((a.asname or a.name).split('.')[0] for a in y.names)
        if isinstance(y, (ast.MatchAs, ast.MatchStar)) and y.name:
            out.add(y.name)
        todo.extend(ast.iter_child_nodes(y))
    return out


@each('local names are bound before use')
def t_bound(P, dotted, m, r):
    for f in ast.walk(m.tree):
        if not isinstance(f, ast.FunctionDef):
            continue
        a = f.args
        params = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]}
        glob = {n for x in ast.walk(f) if isinstance(x, (ast.Global, ast.Nonlocal)) and m.scope(x) is f for n in x.names}
        local = set()
        for s in f.body:
            local |= bound_in(s)
        local -= glob

        def use(e, may):
            if e is None:
                return
            todo = [e]
            while todo:
                y = todo.pop()
                if isinstance(y, (ast.Lambda, ast.FunctionDef, ast.ClassDef)):
                    continue
                if isinstance(y, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                    use(y.generators[0].iter, may)
                    continue
                if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Load) and y.id in local:
                    if y.id in may:
                        r.ok()
                    elif not m.guarded(y, ('NameError', 'UnboundLocalError')):
                        r.fail(y, 'local name %s is used before it is bound on any path' % y.id)
                todo.extend(ast.iter_child_nodes(y))

        def block(ss, may):
            for s in ss:
                may = stmt(s, may)
                if may is None:
                    return None
            return may

        def join(*xs):
            xs = [x for x in xs if x is not None]
            return frozenset().union(*xs) if xs else None

        def stmt(s, may):
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                for d in s.decorator_list:
                    use(d, may)
                return may | {s.name}
            if isinstance(s, (ast.Return, ast.Raise)):
                use(s, may)
                return None
            if isinstance(s, (ast.Break, ast.Continue)):
                return None
            if isinstance(s, ast.If):
                use(s.test, may)
                may = may | bound_in(s.test)
                return join(block(s.body, may), block(s.orelse, may))
            if isinstance(s, (ast.For, ast.While)):
                if isinstance(s, ast.For):
                    use(s.iter, may)
                    inner = may | bound_in(s)
                else:
                    # the condition is reached first without the body
                    use(s.test, may)
                    inner = may | bound_in(s)
                block(s.body, inner)
                out = block(s.orelse, inner)
                if isinstance(s, ast.While) and isinstance(s.test, ast.Constant) and s.test.value and \
                        not any(isinstance(x, ast.Break) for x in ast.walk(s)):
                    return None
                return inner if out is None and any(isinstance(x, ast.Break) for x in ast.walk(s)) else out
            if isinstance(s, ast.Try) or s.__class__.__name__ == 'TryStar':
                b = block(s.body, may)
                anywhere = may
                for x in s.body:
                    anywhere = anywhere | bound_in(x)
                outs = [block(s.orelse, b) if b is not None else None]
                for h in s.handlers:
                    outs.append(block(h.body, anywhere | ({h.name} if h.name else set())))
                res = join(*outs)
                if s.finalbody:
                    fin = anywhere
                    for h in s.handlers:
                        fin = fin | bound_in(h)
                    for x in s.orelse:
                        fin = fin | bound_in(x)
                    fo = block(s.finalbody, fin)
                    if fo is None or res is None:
                        return None
                    return res | frozenset().union(*[bound_in(x) for x in s.finalbody])
                return res
            if isinstance(s, ast.With):
                for it in s.items:
                    use(it.context_expr, may)
                    if it.optional_vars is not None:
                        may = may | bound_in(it.optional_vars)
                o = block(s.body, may)
                # a context manager may swallow an exception
                return o
            if isinstance(s, ast.Match):
                use(s.subject, may)
                return join(may, *[block(c.body, may | bound_in(c.pattern)) for c in s.cases])
            if isinstance(s, ast.Delete):
                use(s, may)
                return may
            if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and s.target.id in local and s.target.id not in may:
                r.fail(s, 'local name %s is used before it is bound on any path' % s.target.id)
            use(s, may)
            return may | bound_in(s)
        block(f.body, frozenset(params))


def err_keys(P):
    m = P.mods.get(PKG + '.spherepy')
    d = {}
    if m is None:
        return None
    for x in ast.walk(m.tree):
        if isinstance(x, ast.Assign):
            for t in x.targets:
                if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and t.value.id == 'err_msg':
                    k = const(t.slice)
                    if k is None:
                        return None
                    d[k] = const(x.value)
                elif isinstance(t, ast.Name) and t.id == 'err_msg':
                    if not isinstance(x.value, ast.Dict):
                        if isinstance(x.value, ast.Call) and getattr(x.value.func, 'id', '') == 'dict' and not x.value.args and \
                                all(k.arg for k in x.value.keywords):
                            d.update({k.arg: const(k.value) for k in x.value.keywords})
                            continue
                        return None
                    for k, v in zip(x.value.keys, x.value.values):
                        if const(k) is None:
                            return None
                        d[const(k)] = const(v)
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and \
                x.func.value.id == 'err_msg' and x.func.attr in ('update', 'setdefault'):
            return None
    return d


def const(x):
    """constant value of a string or number expression, else None"""
    if isinstance(x, ast.Constant):
        return x.value
    if isinstance(x, ast.BinOp) and isinstance(x.op, ast.Add):
        a, b = const(x.left), const(x.right)
        if isinstance(a, str) and isinstance(b, str):
            return a + b
    return None


def is_err(x):
    return isinstance(x, ast.Subscript) and (getattr(x.value, 'id', '') == 'err_msg' or getattr(x.value, 'attr', '') == 'err_msg')


@each('messages exist and fit their values')
def t_msg(P, dotted, m, r):
    keys = err_keys(P)

    def text(x):
        if is_err(x) and keys is not None:
            return keys.get(const(x.slice))
        if isinstance(x, ast.Name) and m.scope(x) is not None:
            return None
        return const(x)
    for x in ast.walk(m.tree):
        if is_err(x) and isinstance(x.ctx, ast.Load) and keys is not None:
            k = const(x.slice)
            if k is not None and k not in keys and not m.guarded(x, ('KeyError', 'LookupError')):
                r.fail(x, 'there is no message %r' % k)
            else:
                r.ok()
        if isinstance(x, ast.BinOp) and isinstance(x.op, ast.Mod):
            t = text(x.left)
            if isinstance(t, str) and (isinstance(x.right, ast.Tuple) or isinstance(x.right, ast.Constant)) and '%(' not in t:
                if isinstance(x.right, ast.Tuple) and any(isinstance(e, ast.Starred) for e in x.right.elts):
                    continue
                need = len(re.findall(r'%[-+ #0]*(?:\d+)?(?:\.\d+)?[hlL]?[diouxXeEfFgGcrsa]', t.replace('%%', '')))
                have = len(x.right.elts) if isinstance(x.right, ast.Tuple) else 1
                if need != have:
                    r.fail(x, 'the message takes %d values and is given %d' % (need, have))
                else:
                    r.ok()
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'format':
            t = text(x.func.value)
            if isinstance(t, str) and not any(isinstance(e, ast.Starred) for e in x.args) and all(k.arg for k in x.keywords):
                try:
                    fs = [f[1] for f in string.Formatter().parse(t) if f[1] is not None]
                except ValueError as e:
                    r.fail(x, 'malformed format string: %s' % e)
                    continue
                auto, bad = 0, None
                for f in fs:
                    b = re.split(r'[.\[]', f)[0]
                    if b == '':
                        b = str(auto)
                        auto += 1
                    if b.isdigit():
                        if int(b) >= len(x.args):
                            bad = b
                    elif b not in [k.arg for k in x.keywords]:
                        bad = b
                if bad is not None:
                    r.fail(x, 'the format string uses value %s that is not given' % bad)
                else:
                    r.ok()


@each('raised objects are exceptions')
def t_raise(P, dotted, m, r):
    for x in ast.walk(m.tree):
        if isinstance(x, ast.Raise) and x.exc is not None:
            e = x.exc
            if is_err(e) or isinstance(e, (ast.Constant, ast.JoinedStr, ast.Tuple, ast.Dict, ast.List)) or \
                    (isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Mod, ast.Add))):
                r.fail(x, 'what is raised is not an exception')
                continue
            f = e.func if isinstance(e, ast.Call) else e
            if isinstance(f, ast.Name) and m.scope(x) is not None:
                d = P.define(dotted, f.id)
                if isinstance(e, ast.Call) and d is not None and isinstance(d[1], ast.ClassDef) and not d[1].bases:
                    r.fail(x, 'what is raised is not an exception')
                    continue
                if f.id in dir(builtins) and f.id not in EXC and f.id not in m.bound and isinstance(e, ast.Call) and \
                        f.id in ('str', 'int', 'float', 'dict', 'list', 'tuple', 'print'):
                    r.fail(x, 'what is raised is not an exception')
                    continue
            r.ok()


def sig_errors(fn, call, skip):
    """why the call does not fit the signature, or None"""
    if any(isinstance(e, ast.Starred) for e in call.args) or any(k.arg is None for k in call.keywords):
        return None
    a = fn.args
    pos = [x.arg for x in a.posonlyargs + a.args][skip:]
    given = len(call.args)
    if given > len(pos) and not a.vararg:
        return 'takes at most %d positional arguments, given %d' % (len(pos), given)
    filled = set(pos[:given])
    npo = max(0, len(a.posonlyargs) - skip)
    for k in call.keywords:
        if k.arg in filled:
            return 'argument %s is given twice' % k.arg
        if k.arg in pos[npo:] or k.arg in [x.arg for x in a.kwonlyargs]:
            filled.add(k.arg)
        elif not a.kwarg:
            return 'has no argument %s' % k.arg
    ndef = len(a.defaults)
    req = pos[:len(pos) - ndef] if ndef <= len(pos) else []
    req += [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None]
    miss = [x for x in req if x not in filled]
    if miss:
        return 'needs the argument %s' % miss[0]
    return None


def methods(c):
    return {x.name: x for x in c.body if isinstance(x, ast.FunctionDef)}


def plain(c):
    """a class whose instances have exactly the attributes its body gives them"""
    if c.decorator_list or c.keywords or any(getattr(b, 'id', '') != 'object' for b in c.bases):
        return False
    return not ({'__getattr__', '__getattribute__', '__slots__', '__dict__'} & set(methods(c)))


def self_name(m, x):
    """the class whose method x is in, if x is the method's first parameter"""
    f = m.scope(x)
    while f is not None and not isinstance(m.parents.get(f), ast.ClassDef):
        if isinstance(f, ast.FunctionDef) and x.id in [y.arg for y in f.args.args]:
            return None
        f = m.scope(f)
    if not isinstance(f, ast.FunctionDef) or not f.args.args or f.args.args[0].arg != x.id:
        return None
    if any(isinstance(d, ast.Name) and d.id in ('staticmethod', 'classmethod') or not isinstance(d, (ast.Name, ast.Attribute))
           for d in f.decorator_list):
        return None
    if any(isinstance(y, ast.Name) and y.id == x.id and isinstance(y.ctx, ast.Store) for y in ast.walk(f)):
        return None
    # functions of the class body that are used as decorators get functions, not instances
    c = m.parents[f]
    if any(isinstance(d, ast.Name) and d.id == f.name for g in c.body if isinstance(g, ast.FunctionDef) for d in g.decorator_list):
        return None
    return c


def class_attrs(m, c):
    out = set(dir(object)) | {'__dict__', '__class__', '__name__'}
    for x in ast.walk(c):
        if isinstance(x, (ast.FunctionDef, ast.ClassDef)) and m.parents.get(x) is c:
            out.add(x.name)
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and m.scope(x) is c:
            out.add(x.id)
        if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
            out.add(x.attr)
        if isinstance(x, ast.Call) and getattr(x.func, 'id', getattr(x.func, 'attr', '')) in ('setattr', '__setattr__', 'update', 'vars'):
            return None
    return out


def resolve(P, dotted, m, f):
    """(module, definition) of the package function or class an expression names"""
    if isinstance(f, ast.Name):
        s = m.scope(f)
        while s is not None:
            if isinstance(s, ast.FunctionDef):
                a = s.args
                if f.id in {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]} or \
                        any(f.id in bound_in(b) for b in s.body):
                    return None
            s = m.scope(s)
        return P.define(dotted, f.id)
    if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name):
        t = module_of(P, m, f.value)
        if t:
            return P.define(t, f.attr)
    return None


def module_of(P, m, x):
    """dotted package module a name stands for"""
    if m.imports.get(x.id) is None or m.counts.get(x.id, 0) != 1:
        return None
    s = m.scope(x)
    while s is not None:
        if isinstance(s, ast.FunctionDef):
            if x.id in [y.arg for y in s.args.args] or any(x.id in bound_in(b) for b in s.body):
                return None
        s = m.scope(s)
    return m.imports[x.id]


@each('calls fit the functions of the package')
def t_calls(P, dotted, m, r):
    for x in ast.walk(m.tree):
        if not isinstance(x, ast.Call):
            continue
        f = x.func
        d = resolve(P, dotted, m, f)
        fn, skip = None, 0
        if d is not None:
            if isinstance(d[1], ast.ClassDef):
                if plain(d[1]) and '__init__' in methods(d[1]) and '__new__' not in methods(d[1]):
                    fn, skip = methods(d[1])['__init__'], 1
            else:
                fn = d[1]
        elif isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name):
            c = self_name(m, f.value)
            if c is not None and plain(c) and f.attr in methods(c):
                g = methods(c)[f.attr]
                if not g.decorator_list and not any(isinstance(y, ast.Attribute) and isinstance(y.ctx, ast.Store) and y.attr == f.attr
                                                    for y in ast.walk(m.tree)):
                    fn, skip = g, 1
        if fn is None or fn.decorator_list and fn.name != '__init__':
            continue
        why = sig_errors(fn, x, skip)
        if why and not m.guarded(x, ('TypeError',)):
            r.fail(x, 'the call of %s does not fit: it %s' % (ast.unparse(f), why))
        else:
            r.ok()


@each('attributes exist')
def t_attrs(P, dotted, m, r):
    known = None
    if P.np:
        known = set(P.np[1])
        for t in (str, list, dict, tuple, set, int, float, complex, slice, bool, range, bytes, type, object, BaseException, property):
            known |= set(dir(t))
        known |= set(dir(open)) | set('read write close readline readlines writelines seek tell flush name mode'.split())
        known |= set('__name__ __doc__ __dict__ __module__ __wrapped__ __defaults__ __code__ __file__'.split())
        for k, mm in P.mods.items():
            for x in ast.walk(mm.tree):
                if isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                    known.add(x.name)
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
                    known.add(x.attr)
                if isinstance(x, ast.ClassDef):
                    for y in x.body:
                        if isinstance(y, ast.Assign):
                            known |= {z.id for t in y.targets for z in ast.walk(t) if isinstance(z, ast.Name)}
                        if isinstance(y, ast.AnnAssign) and isinstance(y.target, ast.Name):
                            known.add(y.target.id)
    # names that stand for modules from outside the package (numpy is known)
    outside = {n for n, d in m.imports.items() if d is None or (d.split('.')[0] != PKG and d != 'numpy')} - {'xrange'}
    for x in ast.walk(m.tree):
        if isinstance(x, (ast.Import, ast.ImportFrom)) and m.scope(x) is not None:
            outside |= {(a.asname or a.name).split('.')[0] for a in x.names}
    memo = {}

    def tainted(sc):
        """names of a scope that may hold objects of modules from outside"""
        if sc not in memo:
            bad = set(outside)
            while True:
                k = len(bad)
                for y in ast.walk(sc or m.tree):
                    if isinstance(y, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.For, ast.NamedExpr, ast.comprehension)):
                        v = y.iter if isinstance(y, (ast.For, ast.comprehension)) else y.value
                        ts = y.targets if isinstance(y, ast.Assign) else [y.target]
                    elif isinstance(y, ast.withitem) and y.optional_vars is not None:
                        v, ts = y.context_expr, [y.optional_vars]
                    else:
                        continue
                    if v is not None and any(n.id in bad for n in loads_of(v)):
                        bad |= {n.id for t in ts for n in ast.walk(t) if isinstance(n, ast.Name)}
                if len(bad) == k:
                    break
            memo[sc] = bad
        return memo[sc]
    for x in ast.walk(m.tree):
        if not (isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load)):
            continue
        if m.guarded(x, ('AttributeError',)):
            continue
        v = x.value
        if isinstance(v, ast.Name):
            t = module_of(P, m, v)
            if t and t.split('.')[0] == PKG:
                ns = P.names(t)
                if ns is not None and not P.mods[t].opaque and P.mods[t].name not in GENERATED:
                    if x.attr not in ns and x.attr not in dir(object) and '__getattr__' not in ns:
                        r.fail(x, 'module %s has no %s' % (t, x.attr))
                    else:
                        r.ok()
                elif ns is not None and x.attr not in ns:
                    r.fail(x, 'module %s has no %s' % (t, x.attr))
                continue
            if t == 'numpy':
                if P.np:
                    if x.attr not in P.np[0]:
                        r.fail(x, 'numpy has no %s' % x.attr)
                    else:
                        r.ok()
                continue
            c = self_name(m, v)
            if c is not None and plain(c):
                at = class_attrs(m, c)
                if at is not None:
                    # attributes set from outside the class
                    at = at | {y.attr for mm in P.mods.values() for y in ast.walk(mm.tree)
                               if isinstance(y, ast.Attribute) and isinstance(y.ctx, ast.Store)}
                    if x.attr not in at:
                        r.fail(x, 'objects of class %s have no %s' % (c.name, x.attr))
                    else:
                        r.ok()
                continue
        b = v
        while isinstance(b, (ast.Attribute, ast.Subscript, ast.Call)):
            b = b.value if not isinstance(b, ast.Call) else b.func
        if isinstance(b, ast.Name) and (b.id in outside or module_of(P, m, b)):
            continue
        if isinstance(b, ast.Name) and b.id in tainted(m.scope(x)):
            continue
        if known is not None:
            if x.attr not in known:
                r.fail(x, 'no object of the package, of numpy or built in has an attribute %s' % x.attr)
            else:
                r.ok()


def t_public(ck):
    P = Package()
    ns = P.names(PKG)
    # matplotlib wrapper module is imported with a star inside try/except ImportError
    for nm in PUBLIC:
        if ns is None:
            ck.undecided('spherepy.%s exists' % nm, 'names of the package cannot be listed')
        elif nm in ns:
            ck.proved('spherepy.%s exists' % nm, PKG + '/__init__.py')
        else:
            ck.violated('spherepy.%s exists' % nm, 'the public name is not defined', PKG + '/__init__.py')
    for sub, names in PUBLIC_IN.items():
        s = P.names(PKG + '.' + sub)
        for nm in names:
            if s is None:
                ck.undecided('%s.%s exists' % (sub, nm), 'names of the module cannot be listed')
            elif nm in s:
                ck.proved('%s.%s exists' % (sub, nm), '%s/%s.py' % (PKG, sub))
            else:
                ck.violated('%s.%s exists' % (sub, nm), 'the public name is not defined', '%s/%s.py' % (PKG, sub))
    for cls, names in CLASS_API.items():
        d = P.define(PKG, cls)
        if d is None or not isinstance(d[1], ast.ClassDef) or not plain(d[1]) or class_attrs(*d) is None:
            ck.undecided('members of %s' % cls, 'the class is built in a way that is not followed')
            continue
        at = class_attrs(*d)
        for nm in names:
            if nm in at:
                ck.proved('%s.%s exists' % (cls, nm), d[0].site(d[1]))
            else:
                ck.violated('%s.%s exists' % (cls, nm), 'the public member is not defined', d[0].site(d[1]))


TASKS = {'C24': [('names', t_names), ('bound', t_bound), ('messages', t_msg), ('raises', t_raise), ('calls', t_calls),
                 ('attributes', t_attrs), ('public names', t_public)]}
