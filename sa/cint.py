"""C front end: the type-checked syntax tree of src/csphi.c (clang) is translated
to the same statement form the Python analyser works on and analysed by it.

Pointers become a pair (buffer, element offset), SCOMPLEX values become complex
terms, integer division truncates, every load, store, memset, memcpy and transform
is checked against the extent of its buffer, every malloc/free against the live
blocks.  A violated check is the exception MemoryFault of the analysed program."""
import ast
import hashlib
import json
import math
import os
import re
import subprocess
from fractions import Fraction
from .api import *
from .pyint import Ctx, Interp
from . import terms as T

SIZES = {'double': 8, 'SCOMPLEX': 16, 'kiss_fft_cpx': 16, 'int': 4, 'unsigned int': 4, 'long': 8,
         'unsigned long': 8, 'size_t': 8, 'char': 1, 'float': 4, 'SFLOAT': 8, 'SINT': 4}
DT = {'double': 'float64', 'SFLOAT': 'float64', 'SCOMPLEX': 'complex128', 'kiss_fft_cpx': 'complex128',
      'int': 'int64', 'SINT': 'int64', 'long': 'int64', 'unsigned int': 'int64', 'unsigned long': 'int64',
      'size_t': 'int64'}
SZ = {'float64': 8, 'complex128': 16, 'int64': 4}


ROOT = os.environ.get('SPHEREPY_ROOT', '/repo')


class Unsupported(Exception):
    pass


_asts = {}


def clang_ast(root, rel='src/csphi.c', extra=()):
    path = os.path.join(root, rel)
    h = hashlib.sha256()
    d = os.path.dirname(path)
    for f in sorted(os.listdir(d)):
        if f.endswith(('.c', '.h')):
            with open(os.path.join(d, f), 'rb') as fh:
                h.update(f.encode() + b'\0' + fh.read())
    key = (path, tuple(extra), h.hexdigest())
    if key not in _asts:
        p = subprocess.run(['clang', '-I' + d, '-fsyntax-only', '-Xclang', '-ast-dump=json'] + list(extra) + [path],
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if p.returncode != 0 and not p.stdout:
            raise AnalysisError('clang: ' + p.stderr.decode()[-300:])
        _asts[key] = json.loads(p.stdout)
    return _asts[key]


def own_decls(tree, path):
    """top-level declarations written in the file itself"""
    out, cur = [], None
    for n in tree.get('inner', []):
        loc = n.get('loc', {})
        loc = loc.get('expansionLoc', loc)
        if 'file' in loc:
            cur = loc['file']
        if cur is not None and os.path.abspath(cur) == os.path.abspath(path) and not n.get('isImplicit'):
            out.append(n)
    return out


def is_ptr(t):
    return t.rstrip().endswith('*') or t.strip() in ('kiss_fft_cfg', 'struct kiss_fft_state *')


def pointee(t):
    t = t.replace('const ', '').strip()
    return t[:-1].strip() if t.endswith('*') else t


def qt(n):
    return n.get('type', {}).get('qualType', '')


def array_of(t):
    """(element type, number of elements) of a one-dimensional array type"""
    m = re.match(r'^(.*?)\s*\[(\d+)\]$', t.replace('const ', '').strip())
    return (m.group(1).strip(), int(m.group(2))) if m and '[' not in m.group(1) else None


def ptr_like(t):
    return is_ptr(t) or array_of(t) is not None


def is_float(t):
    return t.replace('const ', '').strip() in ('double', 'float', 'SFLOAT', 'kiss_fft_scalar')


def is_struct(t):
    return t.replace('const ', '').strip() in ('SCOMPLEX', 'kiss_fft_cpx')


def name_(s, ctx=None):
    return ast.Name(s, ctx or ast.Load())


def call_(f, *a):
    return ast.Call(name_(f), list(a), [])


def const_(v):
    return ast.Constant(v)


def bin_(op, a, b):
    return ast.BinOp(a, op, b)


def set_(n, v):
    return ast.Assign([name_(n, ast.Store())], v)


PYOPS = {'+': ast.Add, '-': ast.Sub, '*': ast.Mult}
CMP = {'<': ast.Lt, '<=': ast.LtE, '>': ast.Gt, '>=': ast.GtE, '==': ast.Eq, '!=': ast.NotEq}


class Trans(object):
    """one function"""
    def __init__(self, unit, fn):
        self.unit, self.fn = unit, fn
        self.line = fn['loc'].get('line', 0) or 0
        self.pre, self.post = [], []
        self.cont = []
        self.names = {}
        self.globs = set()
        self.calls = set()
        self.tmp = 0

    # -- names
    def var(self, d):
        """python name of a declared variable"""
        return self.unit.globals.get(d['id']) or self.names.get(d['id']) or d['name']

    def declare(self, d):
        n = d['name']
        if n in self.names.values():
            n = '%s_%d' % (n, len(self.names))
        self.names[d['id']] = n
        return n

    def fresh(self):
        self.tmp += 1
        return 't__%d' % self.tmp

    def track(self, n):
        for k in ('range', 'loc'):
            l = n.get(k, {})
            l = l.get('begin', l)
            l = l.get('expansionLoc', l)
            if 'line' in l:
                self.unit.line = l['line']

    # -- function
    def function(self):
        params = []
        body = None
        for c in self.fn.get('inner', []):
            if c['kind'] == 'ParmVarDecl':
                n = self.declare(c) if 'name' in c else self.fresh()
                params += [n + '__b', n + '__o'] if is_ptr(qt(c)) else [n]
            elif c['kind'] == 'CompoundStmt':
                body = c
        st = self.block(body)
        if self.globs:
            st = [ast.Global(sorted(x for g in self.globs for x in self.unit.gnames(g)))] + st
        a = ast.arguments([], [ast.arg(p) for p in params], None, [], [], None, [])
        f = ast.FunctionDef(self.fn['name'], a, st or [ast.Pass()], [])
        f.lineno = self.unit.lines.get(self.fn['name'], 0)
        return f

    def block(self, n):
        out = []
        for c in n.get('inner', []):
            out += self.stmt(c)
        return out

    def body(self, n):
        out = self.block(n) if n['kind'] == 'CompoundStmt' else self.stmt(n)
        return out or [ast.Pass()]

    def wrapped(self, n, f):
        """statements of f() with the side effects of its expressions"""
        kp, kq = self.pre, self.post
        self.pre, self.post = [], []
        s = f()
        out = self.pre + s + self.post
        self.pre, self.post = kp, kq
        line = self.unit.line_of(n)
        for x in out:
            for y in ast.walk(x):
                if not hasattr(y, 'lineno'):
                    y.lineno = line
        return out

    def pure(self, n):
        """expression whose evaluation needs no statements"""
        kp, kq = self.pre, self.post
        self.pre, self.post = [], []
        e = self.expr(n)
        bad = self.pre or self.post
        self.pre, self.post = kp, kq
        if bad:
            raise Unsupported('side effect in a condition')
        return e

    def stmt(self, n):
        k = n['kind']
        if k == 'CompoundStmt':
            return self.block(n)
        if k == 'NullStmt':
            return []
        if k == 'DeclStmt':
            out = []
            for d in n['inner']:
                if d['kind'] != 'VarDecl':
                    continue
                if d.get('storageClass') in ('static', 'extern'):
                    self.unit.add_global(d, '%s__%s' % (self.fn['name'], d['name']))
                    if 'const ' not in qt(d):
                        self.globs.add(self.var(d))
                    continue
                v = self.declare(d)
                init = [c for c in d.get('inner', []) if not c['kind'].endswith('Comment')]
                if array_of(qt(d)):
                    out += self.wrapped(n, lambda: self.array(d, v, init if 'init' in d else None))
                elif init and 'init' in d:
                    out += self.wrapped(n, lambda: self.set_var(d, v, init[-1]))
                elif is_struct(qt(d)):
                    out += self.wrapped(n, lambda: [set_(v, call_('__c_uninit'))])
                elif '[' in qt(d):
                    raise Unsupported('local array')
            return out
        if k == 'IfStmt':
            inner = n['inner']

            def f():
                c = self.expr(inner[0])
                if self.post:
                    raise Unsupported('side effect in a condition')
                return [ast.If(c, self.body(inner[1]), self.body(inner[2]) if len(inner) > 2 else [])]
            return self.wrapped(n, f)
        if k == 'ForStmt':
            init, _, cond, inc, body = (n['inner'] + [{}] * 5)[:5]
            out = self.stmt(init) if init else []

            def f():
                c = self.pure(cond) if cond else const_(True)
                step = self.stmt(inc) if inc else []
                self.cont.append(inc)
                b = self.body(body)
                self.cont.pop()
                return [ast.While(c, b + step, [])]
            return out + self.wrapped(n, f)
        if k == 'WhileStmt':
            def f():
                self.cont.append(None)
                b = self.body(n['inner'][1])
                self.cont.pop()
                return [ast.While(self.pure(n['inner'][0]), b, [])]
            return self.wrapped(n, f)
        if k == 'DoStmt':
            def f():
                self.cont.append('do')
                b = self.body(n['inner'][0])
                self.cont.pop()
                c = self.pure(n['inner'][1])
                return [ast.While(const_(True), b + [ast.If(ast.UnaryOp(ast.Not(), c), [ast.Break()], [])], [])]
            return self.wrapped(n, f)
        if k == 'ContinueStmt':
            inc = self.cont[-1] if self.cont else None
            if inc == 'do':
                raise Unsupported('continue in do-while')
            return (self.stmt(inc) if inc else []) + self.wrapped(n, lambda: [ast.Continue()])
        if k == 'BreakStmt':
            return self.wrapped(n, lambda: [ast.Break()])
        if k == 'ReturnStmt':
            def f():
                if not n.get('inner'):
                    return [ast.Return(None)]
                e = n['inner'][0]
                if is_ptr(qt(e)):
                    b, o = self.ptr(e)
                    v = ast.Tuple([b, o], ast.Load())
                else:
                    v = self.expr(e)
                if self.post:
                    raise Unsupported('side effect in return')
                return [ast.Return(v)]
            return self.wrapped(n, f)
        if k in ('SwitchStmt', 'GotoStmt', 'LabelStmt', 'GCCAsmStmt'):
            raise Unsupported(k)
        return self.wrapped(n, lambda: self.effect(n))

    def effect(self, n):
        """expression statement"""
        k = n['kind']
        if k in ('ParenExpr', 'ExprWithCleanups'):
            return self.effect(n['inner'][0])
        if k in ('CStyleCastExpr', 'ImplicitCastExpr') and n.get('castKind') in ('ToVoid', 'LValueToRValue'):
            return self.effect(n['inner'][0])
        if k == 'BinaryOperator' and n['opcode'] == ',':
            return self.effect(n['inner'][0]) + self.effect(n['inner'][1])
        if k == 'BinaryOperator' and n['opcode'] == '=':
            l, r = n['inner']
            if is_ptr(qt(l)):
                d = self.strip(l)
                if d['kind'] != 'DeclRefExpr':
                    raise Unsupported('pointer stored in memory')
                return self.set_var(d['referencedDecl'], self.var(d['referencedDecl']), r)
            return self.assign(l, self.expr(r))
        if k == 'CompoundAssignOperator':
            l, r = n['inner']
            op = n['opcode'][:-1]
            if is_ptr(qt(l)):
                d = self.strip(l)
                if d['kind'] != 'DeclRefExpr' or op not in PYOPS:
                    raise Unsupported('pointer update')
                v = self.var(d['referencedDecl']) + '__o'
                return [set_(v, bin_(PYOPS[op](), name_(v), self.expr(r)))]
            ct = n.get('computeResultType', n['type'])['qualType']
            e = self.arith(op, self.lval(l), self.expr(r), ct)
            if is_float(ct) and not is_float(qt(l)):
                e = call_('__c_toint', e)
            return self.assign(l, e)
        if k == 'UnaryOperator' and n['opcode'] in ('++', '--'):
            return self.step(n)
        if k == 'CallExpr':
            return [ast.Expr(self.expr(n))]
        if k == 'ConditionalOperator':
            c, a, b = n['inner']
            return [ast.If(self.expr(c), self.effect(a) or [ast.Pass()], self.effect(b))]
        e = self.expr(n)
        return [ast.Expr(e)]

    def step(self, n):
        l = n['inner'][0]
        op = ast.Add() if n['opcode'] == '++' else ast.Sub()
        if is_ptr(qt(l)):
            d = self.strip(l)
            if d['kind'] != 'DeclRefExpr':
                raise Unsupported('pointer update')
            v = self.var(d['referencedDecl']) + '__o'
            return [set_(v, bin_(op, name_(v), const_(1)))]
        return self.assign(l, bin_(op, self.lval(l), const_(1)))

    def array(self, d, v, init, zero=False):
        """array object with its own storage"""
        t, n = array_of(qt(d))
        if t not in DT:
            raise Unsupported('array of ' + t)
        vals = []
        if init:
            e = init[-1]
            if e['kind'] != 'InitListExpr':
                raise Unsupported('array initialiser')
            vals = [c for c in e.get('array_filler', e.get('inner', [])) if c['kind'] != 'ImplicitValueInitExpr']
            zero = True
        out = [set_(v + '__b', call_('__c_array', const_(DT[t]), const_(n), const_(zero))), set_(v + '__o', const_(0))]
        for k, c in enumerate(vals):
            out.append(ast.Expr(call_('__c_store', name_(v + '__b'), const_(k), self.expr(c))))
        return out

    def set_var(self, d, v, e):
        if d['id'] in self.unit.globals:
            self.globs.add(v)
        if is_ptr(qt(d)):
            b, o = self.ptr(e)
            return [ast.Assign([ast.Tuple([name_(v + '__b', ast.Store()), name_(v + '__o', ast.Store())], ast.Store())],
                               ast.Tuple([b, o], ast.Load()))]
        return [set_(v, self.expr(e))]

    def strip(self, n):
        while n['kind'] in ('ParenExpr',) or (n['kind'] == 'ImplicitCastExpr' and n['castKind'] in ('LValueToRValue', 'NoOp')):
            n = n['inner'][0]
        return n

    # -- lvalues
    def assign(self, l, v):
        l = self.strip(l)
        k = l['kind']
        if k == 'DeclRefExpr':
            d = l['referencedDecl']
            if d['id'] in self.unit.globals:
                self.globs.add(self.var(d))
            return [set_(self.var(d), v)]
        if k == 'MemberExpr' and l['name'] in ('r', 'i'):
            base = l['inner'][0]
            fn = '__c_set' + l['name']
            if l.get('isArrow'):
                b, o = self.ptr(base)
            else:
                base = self.strip(base)
                if base['kind'] == 'DeclRefExpr':
                    return self.assign(base, call_(fn, self.lval(base), v))
                b, o = self.addr(base)
            return [ast.Expr(call_('__c_store', b, o, call_(fn, call_('__c_load', b, o), v)))]
        b, o = self.addr(l)
        return [ast.Expr(call_('__c_store', b, o, v))]

    def addr(self, l):
        """address of an element"""
        l = self.strip(l)
        k = l['kind']
        if k == 'ArraySubscriptExpr':
            p, i = l['inner']
            if not is_ptr(qt(p)):
                p, i = i, p
            b, o = self.ptr(p)
            return b, bin_(ast.Add(), o, self.expr(i))
        if k == 'UnaryOperator' and l['opcode'] == '*':
            return self.ptr(l['inner'][0])
        raise Unsupported('lvalue ' + k)

    def lval(self, l):
        """value of an lvalue"""
        l = self.strip(l)
        k = l['kind']
        if k == 'DeclRefExpr':
            d = l['referencedDecl']
            if d['kind'] == 'EnumConstantDecl':
                raise Unsupported('enum')
            return name_(self.var(d))
        if k == 'MemberExpr' and l['name'] in ('r', 'i'):
            base = l['inner'][0]
            if l.get('isArrow'):
                b, o = self.ptr(base)
                x = call_('__c_load', b, o)
            else:
                x = self.lval(base)
            return call_('__c_' + l['name'], x)
        if k in ('ArraySubscriptExpr', 'UnaryOperator'):
            b, o = self.addr(l)
            return call_('__c_load', b, o)
        raise Unsupported('lvalue ' + k)

    # -- pointers
    def ptr(self, n, want=None):
        k = n['kind']
        if k in ('ParenExpr',):
            return self.ptr(n['inner'][0], want)
        if k in ('ImplicitCastExpr', 'CStyleCastExpr'):
            ck = n['castKind']
            if ck == 'NullToPointer':
                return const_(None), const_(0)
            if ck == 'ArrayToPointerDecay':
                x = self.strip(n['inner'][0])
                if x['kind'] != 'DeclRefExpr' or not array_of(qt(x)):
                    raise Unsupported('array ' + x['kind'])
                return self.ptr(x, want)
            if ck in ('BitCast', 'NoOp', 'LValueToRValue'):
                t = pointee(qt(n))
                return self.ptr(n['inner'][0], t if t in DT else want)
            raise Unsupported('pointer cast ' + ck)
        if k == 'DeclRefExpr':
            d = n['referencedDecl']
            v = self.var(d)
            if d['id'] in self.unit.globals and array_of(qt(n)) and 'const ' not in qt(n):
                self.globs.add(v)
            return name_(v + '__b'), name_(v + '__o')
        if k == 'BinaryOperator' and n['opcode'] in ('+', '-'):
            a, b = n['inner']
            if not is_ptr(qt(a)):
                a, b = b, a
            x, o = self.ptr(a, want)
            return x, bin_(PYOPS[n['opcode']](), o, self.expr(b))
        if k == 'UnaryOperator' and n['opcode'] == '&':
            return self.addr(n['inner'][0])
        if k == 'UnaryOperator' and n['opcode'] in ('++', '--'):
            d = self.strip(n['inner'][0])
            if d['kind'] != 'DeclRefExpr':
                raise Unsupported('pointer update')
            v = self.var(d['referencedDecl'])
            if n.get('isPostfix'):
                self.post += self.step(n)
            else:
                self.pre += self.step(n)
            return name_(v + '__b'), name_(v + '__o')
        if k == 'ConditionalOperator':
            c, a, b = n['inner']
            e = self.expr(c)
            (x, o), (y, p) = self.ptr(a, want), self.ptr(b, want)
            return ast.IfExp(e, x, y), ast.IfExp(e, o, p)
        if k == 'CallExpr':
            f = self.callee(n)
            args = n['inner'][1:]
            if f in ('malloc', 'calloc'):
                if want not in DT:
                    raise Unsupported('untyped allocation')
                size = self.expr(args[0])
                if f == 'calloc':
                    size = bin_(ast.Mult(), size, self.expr(args[1]))
                b = call_('__c_' + f, const_(DT[want]), size)
                return b, const_(0)
            t = self.fresh()
            if f == 'kiss_fft_alloc':
                v = call_('__c_kiss_alloc', *[self.expr(a) for a in args[:2]])
                return v, const_(0)
            self.pre.append(set_(t, self.expr(n)))
            return ast.Subscript(name_(t), const_(0), ast.Load()), ast.Subscript(name_(t), const_(1), ast.Load())
        raise Unsupported('pointer ' + k)

    def callee(self, n):
        d = n['inner'][0]
        while d['kind'] in ('ImplicitCastExpr', 'ParenExpr'):
            d = d['inner'][0]
        if d['kind'] != 'DeclRefExpr':
            raise Unsupported('indirect call')
        self.calls.add(d['referencedDecl']['name'])
        return d['referencedDecl']['name']

    # -- values
    def arith(self, op, a, b, t):
        if op in PYOPS:
            return bin_(PYOPS[op](), a, b)
        if op == '/':
            return call_('__c_fdiv' if is_float(t) else '__c_idiv', a, b)
        if op == '%':
            return call_('__c_imod', a, b)
        if op in ('<<', '>>', '&', '|', '^'):
            return call_('__c_bit', const_(op), a, b)
        raise Unsupported('operator ' + op)

    def expr(self, n):
        k = n['kind']
        if k in ('ParenExpr', 'ConstantExpr'):
            return self.expr(n['inner'][0])
        if k == 'IntegerLiteral':
            return const_(int(n['value']))
        if k == 'CharacterLiteral':
            return const_(int(n['value']))
        if k == 'FloatingLiteral':
            v = float(n['value'])
            if v == math.pi:
                return name_('__c_pi')
            return const_(v)
        if k in ('ImplicitCastExpr', 'CStyleCastExpr'):
            ck = n['castKind']
            x = n['inner'][0]
            if ck == 'LValueToRValue':
                return self.lval(x)
            if ck in ('NoOp', 'IntegralCast', 'FloatingCast', 'ToVoid'):
                if ck == 'FloatingCast' and qt(n) == 'float':
                    raise Unsupported('single precision')
                return self.expr(x)
            if ck == 'IntegralToFloating':
                return call_('float', self.expr(x))
            if ck == 'FloatingToIntegral':
                return call_('__c_toint', self.expr(x))
            if ck == 'IntegralToBoolean' or ck == 'FloatingToBoolean':
                return ast.Compare(self.expr(x), [ast.NotEq()], [const_(0)])
            raise Unsupported('cast ' + ck)
        if k in ('DeclRefExpr', 'ArraySubscriptExpr', 'MemberExpr'):
            return self.lval(n)
        if k == 'UnaryExprOrTypeTraitExpr':
            t = n.get('argType', {}).get('qualType')
            if t is None and n.get('inner'):
                t = qt(n['inner'][0])
            if t not in SIZES:
                raise Unsupported('sizeof ' + str(t))
            return const_(SIZES[t])
        if k == 'UnaryOperator':
            op = n['opcode']
            x = n['inner'][0]
            if op == '*':
                return self.lval(n)
            if op == '-':
                return ast.UnaryOp(ast.USub(), self.expr(x))
            if op == '+':
                return self.expr(x)
            if op == '!':
                if is_ptr(qt(x)):
                    return ast.Compare(self.ptr(x)[0], [ast.Is()], [const_(None)])
                return ast.UnaryOp(ast.Not(), self.expr(x))
            if op in ('++', '--'):
                d = self.strip(x)
                if d['kind'] != 'DeclRefExpr':
                    raise Unsupported('update inside an expression')
                if n.get('isPostfix'):
                    self.post += self.step(n)
                else:
                    self.pre += self.step(n)
                return self.lval(x)
            raise Unsupported('operator ' + op)
        if k == 'BinaryOperator':
            op = n['opcode']
            a, b = n['inner']
            if op in CMP:
                if is_ptr(qt(a)) or is_ptr(qt(b)):
                    return ast.Compare(self.ptr(a)[0], [ast.Is() if op == '==' else ast.IsNot()], [self.ptr(b)[0]])
                return ast.Compare(self.expr(a), [CMP[op]()], [self.expr(b)])
            if op in ('&&', '||'):
                return ast.BoolOp(ast.And() if op == '&&' else ast.Or(),
                                  [self.expr(a), self.pure(b)])
            if op == '=':
                s = self.effect(n)
                self.pre += s
                return self.lval(a)
            if op == ',':
                self.pre += self.effect(a)
                return self.expr(b)
            return self.arith(op, self.expr(a), self.expr(b), qt(n))
        if k == 'ConditionalOperator':
            c, a, b = n['inner']
            return ast.IfExp(self.expr(c), self.pure(a), self.pure(b))
        if k == 'CallExpr':
            f = self.callee(n)
            args = n['inner'][1:]
            if f in self.unit.fns:
                out = []
                for a in args:
                    out += list(self.ptr(a)) if is_ptr(qt(a)) else [self.expr(a)]
                return call_(f, *out)
            if f == 'free':
                b, o = self.ptr(args[0])
                return call_('__c_free', b, o)
            if f in ('memset', 'memcpy', 'memmove'):
                b, o = self.ptr(args[0])
                if f == 'memset':
                    return call_('__c_memset', b, o, self.expr(args[1]), self.expr(args[2]))
                c, p = self.ptr(args[1])
                return call_('__c_memcpy', b, o, c, p, self.expr(args[2]))
            if f == 'kiss_fft':
                out = []
                for a in args:
                    out += list(self.ptr(a))
                return call_('__c_kiss', *out)
            if f in ('sqrt', 'abs', 'labs', 'fabs', 'pow', 'floor', 'ceil', 'cos', 'sin'):
                return call_('__c_' + {'labs': 'abs', 'fabs': 'abs'}.get(f, f), *[self.expr(a) for a in args])
            if f in ('printf', 'fprintf', 'puts', 'assert'):
                return const_(0)
            return call_('__c_extern', const_(f))
        raise Unsupported('expression ' + k)


class Unit(object):
    """translated source file"""
    def __init__(self, root, rel='src/csphi.c'):
        self.path = os.path.join(root, rel)
        tree = clang_ast(root, rel)
        decls = own_decls(tree, self.path)
        self.line = 0
        self.globals, self.gdecl, self.gptr = {}, [], set()
        self.lines, self.linemap = {}, {}
        self.number(decls)
        fns = [d for d in decls if d['kind'] == 'FunctionDecl' and
               any(c['kind'] == 'CompoundStmt' for c in d.get('inner', []))]
        self.fns = dict((f['name'], f) for f in fns)
        for d in decls:
            if d['kind'] == 'VarDecl':
                self.add_global(d, d['name'])
        self.bad = {}
        body = []
        self.writes_globals, self.callees = {}, {}
        for f in fns:
            t = Trans(self, f)
            try:
                fd = t.function()
            except Unsupported as e:
                self.bad[f['name']] = str(e)
                params = [p for c in f['inner'] if c['kind'] == 'ParmVarDecl'
                          for p in ([c.get('name', '_') + '__b', c.get('name', '_') + '__o'] if is_ptr(qt(c)) else [c.get('name', '_')])]
                fd = ast.FunctionDef(f['name'], ast.arguments([], [ast.arg(p) for p in params], None, [], [], None, []),
                                     [ast.Return(call_('__c_extern', const_(f['name'] + ': ' + str(e))))], [])
            if t.globs:
                self.writes_globals[f['name']] = sorted(t.globs)
            self.callees[f['name']] = t.calls
            body.append(fd)
        pre = []
        for d, n in self.gdecl:
            init = [c for c in d.get('inner', []) if not c['kind'].endswith('Comment')]
            v = const_(0)
            if ptr_like(qt(d)):
                t = Trans(self, {'loc': {}, 'name': '?'})
                try:
                    if array_of(qt(d)):
                        pre += t.array(d, n, init if 'init' in d else None, True)
                    else:
                        b, o = t.ptr(init[-1]) if init and 'init' in d else (const_(None), const_(0))
                        pre += [set_(n + '__b', b), set_(n + '__o', o)]
                except Unsupported:
                    pre += [set_(n + '__b', call_('__c_extern', const_(n))), set_(n + '__o', const_(0))]
                continue
            if init and 'init' in d:
                try:
                    v = Trans(self, {'loc': {}, 'name': '?'}).pure(init[-1])
                except Unsupported:
                    v = call_('__c_extern', const_(n))
            pre.append(set_(n, v))
        self.module = ast.Module(pre + body, [])
        for x in ast.walk(self.module):
            for k in ('lineno', 'end_lineno', 'col_offset', 'end_col_offset'):
                if not hasattr(x, k) and isinstance(x, (ast.stmt, ast.expr, ast.arg)):
                    setattr(x, k, 0)

    def dirty(self, fn):
        """static data that a call of fn may write"""
        seen, todo, out = set(), [fn], set()
        while todo:
            x = todo.pop()
            if x not in seen:
                seen.add(x)
                out |= set(self.writes_globals.get(x, ()))
                todo.extend(self.callees.get(x, ()))
        return sorted(out), sorted(seen & set(self.fns))

    def gnames(self, n):
        return [n + '__b', n + '__o'] if n in self.gptr else [n]

    def add_global(self, d, n):
        self.globals[d['id']] = n
        if ptr_like(qt(d)):
            self.gptr.add(n)
        self.gdecl.append((d, n))

    def number(self, decls):
        """source line of every node (clang prints a line only when it changes)"""
        cur = [0]

        def loc(l):
            l = l.get('expansionLoc', l)
            if 'line' in l:
                cur[0] = l['line']

        def walk(n):
            if 'loc' in n and n['loc']:
                if 'spellingLoc' in n['loc']:
                    loc(n['loc']['spellingLoc'])
                loc(n['loc'])
            r = n.get('range', {})
            for k in ('begin', 'end'):
                if k in r:
                    if 'spellingLoc' in r[k]:
                        loc(r[k]['spellingLoc'])
                    loc(r[k])
                    if k == 'begin':
                        self.linemap[id(n)] = cur[0]
            if n.get('kind') == 'FunctionDecl':
                self.lines[n['name']] = self.linemap.get(id(n), 0)
            for c in n.get('inner', []):
                walk(c)
        for d in decls:
            walk(d)

    def line_of(self, n):
        return self.linemap.get(id(n), 0)


_units = {}


def unit(root):
    t = clang_ast(root)
    if id(t) not in _units:
        _units[id(t)] = Unit(root)
    return _units[id(t)]


# -- intrinsics -----------------------------------------------------------------------
FAULT = 'MemoryFault'


def fault(I, st, c, why):
    I.memsites.add((I.site[1], I.site[2], why))
    I.raise_if(st, c, FAULT, StrV(why))


def term(I, v):
    n = I.as_num(v)
    return None if n is None else n.t


def delin(I, st, off, rows, W):
    """row and column of the flat offset off in an array with W columns"""
    F = st.F
    off = F.simp(off)
    wc = W.int_const()
    cands = []
    if wc is None and len(W.t) == 1:
        (mono, c), = W.t.items()
        if len(mono) == 1 and mono[0][1] == 1:
            a = mono[0][0]
            row, col, ok = {}, {}, True
            for m, x in off.t.items():
                d = dict(m)
                if a in d:
                    if d[a] != 1:
                        ok = False
                        break
                    row[tuple((b, e) for b, e in m if b is not a)] = Fraction(x) / c
                else:
                    col[m] = x
            if ok:
                row, col = Num(row), Num(col)
                cands = [(row - k, col + W.scale(k)) for k in (0, 1, -1)]
    if F.decide(eq(rows, ONE)) is True:
        cands.append((ZERO, off))
    for r, c in cands:
        r, c = F.simp(r), F.simp(c)
        if F.decide(c_and([le(ZERO, c), lt(c, W)])) is True:
            return r, c
    return None


class Lib(object):
    def __init__(self, I, mem):
        self.I, self.mem = I, mem

    def live(self, st, key):
        return st.get(self.mem).d.get(key)

    def check_live(self, st, key, what):
        v = self.live(st, key)
        if isinstance(v, BoolV):
            fault(self.I, st, c_not(v.c), what + ' of a freed block')

    def place(self, st, b, o, what):
        """physical index of element o of buffer b, checked"""
        I = self.I
        if isinstance(b, NoneT):
            fault(I, st, TRUE, what + ' through a null pointer')
        if not isinstance(b, ArrV) or o is None:
            return None
        self.check_live(st, b.buf, what)
        r = st.get(b.buf)
        o = st.F.simp(o)
        if len(r.shape) == 1:
            fault(I, st, c_not(c_and([le(ZERO, o), lt(o, r.shape[0])])), what + ' outside the block')
            return [o]
        if len(r.shape) == 2:
            rc = delin(I, st, o, r.shape[0], r.shape[1])
            if rc is None:
                self.flat_fault(st, r, o, what)
                return None
            fault(I, st, c_not(c_and([le(ZERO, rc[1]), lt(rc[1], r.shape[1])])), what + ' outside the row')
            fault(I, st, c_not(c_and([le(ZERO, rc[0]), lt(rc[0], r.shape[0])])), what + ' outside the array')
            return list(rc)
        return None

    def flat_fault(self, st, r, o, what):
        fault(self.I, st, c_not(c_and([le(ZERO, o), lt(o, r.shape[0] * r.shape[1])])), what + ' outside the array')

    def load(self, st, a):
        I = self.I

        def f(st, b):
            def g(st, o):
                ix = self.place(st, b, term(I, o), 'read')
                if ix is None:
                    return I.unknown('C read')
                r = st.get(b.buf)
                ty = {'complex128': 'complex', 'float64': 'float', 'int64': 'int'}[b.dtype]
                return NumV(st.F.simp(r.content(*ix)), ty)
            return I.on(st, a[1], g)
        return I.on(st, a[0], f)

    def store(self, st, a):
        I = self.I

        def f(st, b):
            def g(st, o):
                ix = self.place(st, b, term(I, o), 'write')
                v = term(I, a[2]) if not isinstance(a[2], PhiV) else None
                if isinstance(a[2], PhiV):
                    return I.on(st, a[2], lambda s, x: self.store(s, [b, o, x]))
                if ix is None or v is None:
                    I.unknown('C write')
                    if isinstance(b, ArrV):
                        I.clobber(st, ArrV(b.buf, PVT[:len(st.get(b.buf).shape)], st.get(b.buf).shape, b.dtype))
                    return NONE
                if b.dtype == 'complex128':
                    v = T.combine_parts(st.F.simp(v))
                I.write_lam(st, ArrV(b.buf, ix, (), b.dtype), lambda z: v)
                return NONE
            return I.on(st, a[1], g)
        return I.on(st, a[0], f)

    def part(self, st, a, k):
        def f(st, v):
            x = term(self.I, v)
            if x is None:
                return self.I.unknown('C member')
            return NumV(T.re_im(x)[k], 'float')
        return self.I.on(st, a[0], f)

    def setpart(self, st, a, k):
        def f(st, v):
            def g(st, w):
                x, y = term(self.I, v), term(self.I, w)
                if x is None or y is None:
                    return self.I.unknown('C member')
                p = list(T.re_im(x))
                p[k] = y
                return NumV(T.combine_parts(st.F.simp(p[0] + T.I * p[1])), 'complex')
            return self.I.on(st, a[1], g)
        return self.I.on(st, a[0], f)

    def num2(self, st, a, fn):
        def f(st, v):
            def g(st, w):
                x, y = term(self.I, v), term(self.I, w)
                if x is None or y is None:
                    return self.I.unknown('C arithmetic')
                return fn(st, x, y)
            return self.I.on(st, a[1], g)
        return self.I.on(st, a[0], f)

    def num1(self, st, a, fn):
        def f(st, v):
            x = term(self.I, v)
            if x is None:
                return self.I.unknown('C arithmetic')
            return fn(st, x)
        return self.I.on(st, a[0], f)

    def malloc(self, st, dt, size, zero):
        I = self.I
        count = size.scale(Fraction(1, SZ[dt]))
        if count.sort != 'int':
            return I.unknown('size of an allocation')
        count = st.F.simp(count)
        fault(I, st, lt(count, ZERO), 'allocation of a negative size')
        srt = {'complex128': 'complex', 'float64': 'real', 'int64': 'int'}[dt]
        u = mk_atom('sym', (T.fresh_name('~uninit'), 'arr', srt), srt)
        v = I.mkarr(st, [count], (lambda ix: ZERO) if zero else (lambda ix: sel(u, ix, srt)), dt, 'malloc')
        st.mut(self.mem).d[v.buf] = BoolV(TRUE)
        return v

    def local(self, st, dt, count, zero):
        """array with static or automatic storage"""
        srt = {'complex128': 'complex', 'float64': 'real', 'int64': 'int'}[dt]
        u = mk_atom('sym', (T.fresh_name('~uninit'), 'arr', srt), srt)
        return self.I.mkarr(st, [count], (lambda ix: ZERO) if zero else (lambda ix: sel(u, ix, srt)), dt, 'array')

    def free(self, st, a):
        I = self.I

        def f(st, b):
            if isinstance(b, NoneT):
                return NONE
            key = b.buf if isinstance(b, ArrV) else b.id if isinstance(b, Ref) else None
            if key is None:
                return I.unknown('free')
            v = self.live(st, key)
            if v is None:
                fault(I, st, TRUE, 'free of a block that was not allocated here')
            if isinstance(v, BoolV):
                fault(I, st, c_not(v.c), 'block freed twice')
            o = term(I, a[1])
            if o is not None:
                fault(I, st, ne(o, ZERO), 'free of an inner pointer')
            st.mut(self.mem).d[key] = BoolV(FALSE)
            return NONE
        return I.on(st, a[0], f)

    def span(self, st, b, o, count, what):
        """view of count elements from o, checked"""
        I = self.I
        if isinstance(b, NoneT):
            fault(I, st, TRUE, what + ' through a null pointer')
        if not isinstance(b, ArrV) or o is None or count is None or count.sort != 'int':
            return None
        self.check_live(st, b.buf, what)
        r = st.get(b.buf)
        if len(r.shape) == 1:
            fault(I, st, c_not(c_and([le(ZERO, o), le(o + count, r.shape[0])])), what + ' outside the block')
            return ArrV(b.buf, [PVT[0] + o], [count], b.dtype)
        if len(r.shape) == 2 and o.is_zero() and (count - r.shape[0] * r.shape[1]).is_zero():
            return ArrV(b.buf, PVT[:2], r.shape, b.dtype)
        self.flat_span(st, r, o, count, what)
        return None

    def flat_span(self, st, r, o, count, what):
        fault(self.I, st, c_not(c_and([le(ZERO, o), le(o + count, r.shape[0] * r.shape[1])])), what + ' outside the array')

    def memset(self, st, a):
        I = self.I

        def f(st, b):
            o, v, n = term(I, a[1]), term(I, a[2]), term(I, a[3])
            cnt = n.scale(Fraction(1, SZ[b.dtype])) if isinstance(b, ArrV) and n is not None else None
            view = self.span(st, b, o, cnt, 'memset')
            if view is None or v is None or not v.is_zero():
                I.unknown('memset')
                if isinstance(b, ArrV):
                    I.clobber(st, ArrV(b.buf, PVT[:len(st.get(b.buf).shape)], st.get(b.buf).shape, b.dtype))
                return b
            I.write_lam(st, view, lambda z: ZERO)
            return b
        return I.on(st, a[0], f)

    def memcpy(self, st, a):
        I = self.I

        def f(st, b):
            def g(st, c):
                n = term(I, a[4])
                ok = isinstance(b, ArrV) and isinstance(c, ArrV) and n is not None and b.dtype == c.dtype
                cnt = n.scale(Fraction(1, SZ[b.dtype])) if ok else None
                d = self.span(st, b, term(I, a[1]), cnt, 'memcpy')
                s = self.span(st, c, term(I, a[3]), cnt, 'memcpy')
                if d is None or s is None or len(d.shape) != len(s.shape):
                    I.unknown('memcpy')
                    if isinstance(b, ArrV):
                        I.clobber(st, ArrV(b.buf, PVT[:len(st.get(b.buf).shape)], st.get(b.buf).shape, b.dtype))
                    return b
                src = st.fork()
                I.write_lam(st, d, lambda z: I.arr_elem(src, s, list(z)))
                return b
            return I.on(st, a[2], g)
        return I.on(st, a[0], f)

    def kiss_alloc(self, st, a):
        q, inv = term(self.I, a[0]), term(self.I, a[1])
        if q is None or inv is None:
            return self.I.unknown('kiss_fft_alloc')
        fault(self.I, st, lt(q, ONE), 'transform of length 0')
        id = st.new('kiss', DictRec('kiss', {'n': NumV(q, 'int'), 'inv': NumV(inv, 'int')}))
        st.mut(self.mem).d[id] = BoolV(TRUE)
        return Ref(id)

    def kiss(self, st, a):
        I = self.I

        def f(st, c):
            if not isinstance(c, Ref) or st.get(c.id).kind != 'kiss':
                if isinstance(c, NoneT):
                    fault(I, st, TRUE, 'transform without configuration')
                return self.bad_kiss(st, a)
            self.check_live(st, c.id, 'use')
            d = st.get(c.id).d
            n, inv = term(I, d['n']), term(I, d['inv'])
            k = inv.int_const() if inv is not None else None
            if n is None or k is None:
                return self.bad_kiss(st, a)

            def g(st, x):
                def h(st, y):
                    s = self.span(st, x, term(I, a[3]), n, 'transform')
                    t = self.span(st, y, term(I, a[5]), n, 'transform')
                    if s is None or t is None or len(s.shape) != 1 or len(t.shape) != 1 or s.dtype != 'complex128':
                        return self.bad_kiss(st, a)
                    src = st.fork()
                    lam = I.arr_lam(src, s)
                    ps, body = T.open_lam(lam)
                    body = src.fork(le(ZERO, from_atom(ps[0])), lt(from_atom(ps[0]), n)).F.simp(body)
                    lam = T.mk_lam(ps, body)
                    I.write_lam(st, t, lambda z: T.dft_(1 if k else -1, [n], lam, list(z)))
                    return NONE
                return I.on(st, a[4], h)
            return I.on(st, a[2], g)
        return I.on(st, a[0], f)

    def bad_kiss(self, st, a):
        self.I.unknown('kiss_fft')
        for b in (a[4],):
            if isinstance(b, ArrV):
                self.I.clobber(st, ArrV(b.buf, PVT[:len(st.get(b.buf).shape)], st.get(b.buf).shape, b.dtype))
        return NONE

    def table(self):
        I = self.I
        F = lambda x: NumV(x, 'float')

        def idiv(st, x, y):
            k = y.int_const()
            if k == 0:
                fault(I, st, TRUE, 'integer division by zero')
            if k is None or x.sort != 'int':
                fault(I, st, eq(y, ZERO), 'integer division by zero')
                return I.unknown('integer division')
            if k < 0:
                x, k = -x, -k
            q = ite(le(ZERO, x), T.fdiv(x, num(k)), -T.fdiv(-x, num(k)))
            return NumV(st.F.simp(q), 'int')

        def imod(st, x, y):
            k = y.int_const()
            if k == 0:
                fault(I, st, TRUE, 'integer division by zero')
            if k is None or x.sort != 'int':
                fault(I, st, eq(y, ZERO), 'integer division by zero')
                return I.unknown('integer remainder')
            k = abs(k)
            q = ite(le(ZERO, x), T.mod_(x, num(k)), -T.mod_(-x, num(k)))
            return NumV(st.F.simp(q), 'int')

        def toint(st, x):
            if x.sort == 'int':
                return NumV(x, 'int')
            x = st.F.simp(x)
            if x.sort == 'int':
                return NumV(x, 'int')
            if x.sort == 'real':
                return NumV(st.F.simp(ite(le(ZERO, x), T.floor_(x), -T.floor_(-x))), 'int')
            return I.unknown('conversion to int')

        def pow_(st, x, y):
            h = y.scale(2)
            if x.const() == -1 and y.sort != 'int' and h.sort == 'int' and \
                    st.F.decide(eq(T.mod_(h, num(2)), ZERO)) is True:
                return F(T.ipow(h))
            t = I.pow_term(st, x, y)
            if t is None:
                return I.unknown('pow')
            return F(st.F.simp(t))

        def bit(st, a):
            op, x, y = a[0].const(), term(I, a[1]), term(I, a[2])
            if x is None or y is None or x.sort != 'int' or y.sort != 'int':
                return I.unknown('bit operation')
            k = y.int_const()
            if op == '&' and k == 1:
                return NumV(st.F.simp(T.mod_(x, num(2))), 'int')
            if op == '>>' and k is not None and k >= 0:
                return NumV(st.F.simp(T.fdiv(x, num(2 ** k))), 'int')
            if op == '<<' and k is not None and k >= 0:
                return NumV(x.scale(2 ** k), 'int')
            return I.unknown('bit operation')

        def mall(st, a, zero):
            n = term(I, a[1])
            return I.unknown('size of an allocation') if n is None else self.malloc(st, a[0].const(), n, zero)

        return {
            'load': self.load, 'store': self.store,
            'r': lambda st, a: self.part(st, a, 0), 'i': lambda st, a: self.part(st, a, 1),
            'setr': lambda st, a: self.setpart(st, a, 0), 'seti': lambda st, a: self.setpart(st, a, 1),
            'fdiv': lambda st, a: self.num2(st, a, lambda s, x, y: F(x * T.inverse(y)) if not y.is_zero() else I.unknown('division by zero')),
            'idiv': lambda st, a: self.num2(st, a, idiv),
            'imod': lambda st, a: self.num2(st, a, imod),
            'toint': lambda st, a: self.num1(st, a, toint),
            'bit': bit,
            'sqrt': lambda st, a: self.num1(st, a, lambda s, x: F(T.sqrt_(x))),
            'abs': lambda st, a: self.num1(st, a, lambda s, x: NumV(s.F.simp(abs_(x)), 'int' if x.sort == 'int' else 'float')),
            'floor': lambda st, a: self.num1(st, a, lambda s, x: F(x if x.sort == 'int' else T.floor_(x))),
            'ceil': lambda st, a: self.num1(st, a, lambda s, x: F(x if x.sort == 'int' else -T.floor_(-x))),
            'cos': lambda st, a: I.unknown('cos'), 'sin': lambda st, a: I.unknown('sin'),
            'pow': lambda st, a: self.num2(st, a, pow_),
            'malloc': lambda st, a: mall(st, a, False), 'calloc': lambda st, a: mall(st, a, True),
            'free': self.free, 'memset': self.memset, 'memcpy': self.memcpy,
            'kiss_alloc': self.kiss_alloc, 'kiss': self.kiss,
            'array': lambda st, a: self.local(st, a[0].const(), a[1].t, a[2].c.k == 'T'),
            'extern': lambda st, a: I.unknown('C: ' + (a[0].const() or '')),
            'uninit': lambda st, a: NumV(from_atom(mk_atom('sym', (T.fresh_name('~uninit'), 'complex'), 'complex')), 'complex'),
        }


class CUnit(object):
    """the C file inside an analysis world"""
    def __init__(self, w, root=ROOT):
        I, st = w.I, w.st0
        I.memsites = set()
        self.w, self.unit = w, unit(root)
        self.mem = st.new('cmem', DictRec('cmem'))
        self.lib = Lib(I, self.mem)
        mid = st.new('mod', DictRec('module'))
        m = ModV('csphi', mid)
        I.mods['csphi'] = m
        rec = st.mut(mid)
        rec.d['__name__'] = StrV('csphi')
        rec.d['__c_pi'] = NumV(from_atom(mk_atom('pi', (), 'real')), 'float')
        for k, f in self.lib.table().items():
            rec.d['__c_' + k] = BuiltinV('native:c_' + k, (lambda g: lambda i, s, a, kw: g(s, a))(f))
        ctx = Ctx(mid, mid, (), '<module>', 'csphi')
        I.exec_block(st, self.unit.module.body, ctx)
        self.mod = m
        self.base = set(st.get(self.mem).d)

    def fn(self, st, name):
        return self.w.I.getattr(st, self.mod, name)

    def has(self, name):
        return name in self.unit.fns

    def call(self, st, name, *args):
        """pointer arguments: ArrV (offset 0) or (ArrV, offset)"""
        out = []
        for a in args:
            if isinstance(a, ArrV):
                out += [a, iv(0)]
            elif isinstance(a, tuple):
                out += [a[0], iv(a[1])]
            else:
                out.append(a)
        return self.w.call(st, self.fn(st, name), *out)

    def blocks(self, st):
        """blocks allocated and not freed: key -> condition"""
        return dict((k, v.c if isinstance(v, BoolV) else None) for k, v in st.get(self.mem).d.items()
                    if k not in self.base)
