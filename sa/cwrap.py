"""The extension's argument conversion (generated wrapper) and the layouts it relies on."""
import os
import re
from .cint import clang_ast

TYPES = {'NPY_CDOUBLE': 'complex128', 'NPY_DOUBLE': 'float64'}


def body_of(text, name):
    m = re.search(r'\b%s\s*\((?:[^()]|\([^()]*\))*\)\s*\{' % re.escape(name), text)
    if not m:
        return None, 0
    k, d = m.end(), 1
    while k < len(text) and d:
        d += {'{': 1, '}': -1}.get(text[k], 0)
        k += 1
    return text[m.end():k - 1], text.count('\n', 0, m.start()) + 1


def strip(text):
    text = re.sub(r'/\*.*?\*/', lambda m: re.sub(r'[^\n]', ' ', m.group(0)), text, flags=re.S)
    return re.sub(r'//[^\n]*', '', text)


def wrapper_args(root, fn):
    path = os.path.join(root, 'src/csphi_wrap.c')
    with open(path) as f:
        text = strip(f.read())
    b, line = body_of(text, '_wrap_' + fn)
    if b is None:
        return {'why': 'no wrapper found'}
    calls = re.findall(r'(?<![\w"])%s\s*\(([^()]*)\)\s*;' % re.escape(fn), b)
    if len(calls) != 1:
        return {'why': '%d calls of %s in its wrapper' % (len(calls), fn), 'line': line}
    checks = {}
    for a, t in re.findall(r'(\w+)\s*=\s*obj_to_array_no_conversion\s*\(\s*\w+\s*,\s*(\w+)\s*\)', b):
        checks.setdefault(a, {})['type'] = TYPES.get(t, t)
    for cond in re.findall(r'if\s*\(((?:[^()]|\((?:[^()]|\([^()]*\))*\))*)\)\s*SWIG_fail', b):
        parts = [x.strip() for x in cond.split('||')]
        for x in parts:
            m = re.match(r'!\s*require_(\w+)\s*\(\s*(\w+)\s*(?:,\s*(\d+)\s*)?\)$', x)
            if m and m.group(2) in checks:
                if m.group(1) == 'dimensions' and m.group(3):
                    checks[m.group(2)]['rank'] = int(m.group(3))
                elif m.group(1) == 'contiguous':
                    checks[m.group(2)]['contiguous'] = True
    out = []
    for a in [x.strip() for x in calls[0].split(',')]:
        out.append(origin(b, a))
    return {'args': out, 'checks': checks, 'line': line}


def origin(b, a, depth=0):
    defs = re.findall(r'(?<![\w*/+.>-])%s\s*=\s*([^;=][^;]*);' % re.escape(a), b)
    defs = [d.strip() for d in defs if not re.match(r'\(\s*[\w ]+\*\s*\)\s*0$', d.strip())]
    muls = re.findall(r'(?<!\w)%s\s*\*=\s*([^;]*);' % re.escape(a), b)
    if len(defs) != 1:
        return {'kind': '?'}
    d = re.sub(r'^(\(\s*(?:const |unsigned )*(?:int|long|size_t|double|void|SCOMPLEX|SFLOAT)\s*\**\s*\)\s*)+', '', defs[0]).strip()
    while d.startswith('(') and d.endswith(')'):
        d = d[1:-1].strip()
    m = re.match(r'array_data\s*\(\s*(\w+)\s*\)$', d)
    if m and not muls:
        return {'kind': 'data', 'array': m.group(1)}
    m = re.match(r'array_size\s*\(\s*(\w+)\s*,\s*(\d+)\s*\)$', d)
    if m and not muls:
        return {'kind': 'size', 'array': m.group(1), 'axis': int(m.group(2))}
    if d == '1' and len(muls) == 1:
        m = re.match(r'array_size\s*\(\s*(\w+)\s*,\s*\w+\s*\)$', muls[0].strip())
        if m:
            return {'kind': 'size', 'array': m.group(1), 'axis': 0}
    if re.match(r'\w+$', d) and not muls and depth < 3:
        if re.search(r'SWIG_AsVal_int\s*\([^,]*,\s*&\s*%s\s*\)' % re.escape(d), b):
            return {'kind': 'int', 'from': d}
        return origin(b, d, depth + 1)
    return {'kind': '?'}


def layouts(root):
    """(type, None when it is two doubles in the order r, i)"""
    t = clang_ast(root)
    out = []
    fields = {}

    def walk(n):
        if isinstance(n, dict):
            if n.get('kind') == 'RecordDecl' and n.get('completeDefinition'):
                fs = [(c.get('name'), c['type'].get('desugaredQualType', c['type']['qualType']))
                      for c in n.get('inner', []) if c.get('kind') == 'FieldDecl']
                fields[n.get('id')] = fs
            if n.get('kind') == 'TypedefDecl':
                for c in n.get('inner', []):
                    for e in [c] + c.get('inner', []):
                        i = (e.get('decl') or e.get('ownedTagDecl') or {}).get('id')
                        if i in fields:
                            fields[n['name']] = fields[i]
            for c in n.get('inner', []):
                walk(c)
    walk(t)
    for nm in ('SCOMPLEX', 'kiss_fft_cpx'):
        f = fields.get(nm)
        if f is None:
            out.append((nm, '? not found'))
        elif f == [('r', 'double'), ('i', 'double')]:
            out.append((nm, None))
        else:
            out.append((nm, 'fields are %r, not two doubles r, i as in complex128' % (f,)))
    return out
