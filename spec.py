"""Generates properties.jsonl and MANIFEST.json: python3 spec.py"""
import json
import os
import sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
SP = 'spherepy/spherepy.py'
PY = 'spherepy/pysphi.py'
CC = 'src/csphi.c'

PROPS = []


def p(id, title, statement, over, qtext, why, files, mech):
    PROPS.append(dict(id=id, title=title, statement=statement,
                      quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                      anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech])))


p('C05', 'Mode, column, row and truncation reads return the right modes or are rejected',
  'For scalar and vector coefficients, c[n, m], c[:, m] and c[n, :] return exactly the stored modes of the documented '
  'index region (c[:, m] lists n = |m|..nmax, c[n, :] lists m = -min(n,mmax)..min(n,mmax)) and c[0:k, :] returns '
  'coefficients of size (k, min(k, mmax)) holding the same modes.  Any index outside the region 0 <= n <= nmax, '
  '|m| <= min(n, mmax) (for vectors also n = 0), a truncation outside 0..nmax, and any other form of index raises '
  'AttributeError.',
  ['inputs'], 'all sizes nmax >= mmax >= 0, all integers n, m, k, all contents, all other index forms listed in DESIGN.md',
  'The tests read a few modes of a few small sizes; a wrong bound or a wrong position shows only at particular '
  '(nmax, mmax, n, m).',
  [SP, PY], [('index validation and position arithmetic', SP + ': __getitem__ of the coefficient classes'),
             ('mode position', PY + ': mindx')])
p('C06', 'Assigning a mode, column or row changes exactly those modes',
  'c[n, m] = x, c[:, m] = z and c[n, :] = z on scalar coefficients and c[n, m] = (x, y) on vector coefficients change '
  'exactly the addressed modes to the given values, in the order in which the corresponding read lists them, and leave '
  'every other mode as it was.  They raise AttributeError exactly when the index is outside the valid region or of another form, or the '
  'value does not have the length of the corresponding read.',
  ['inputs', 'histories'], 'all sizes, all indices, all values, all previous contents',
  'The tests assign a few modes and read back the same modes; they do not look at all other modes for all sizes.',
  [SP, PY], [('index validation and writes', SP + ': __setitem__ of the coefficient classes')])
p('C07', 'Arithmetic on coefficients and patterns is elementwise for every operand order',
  'For scalar and vector coefficients and scalar and transverse patterns of equal size, a+b, a-b, a*b, a/b and the '
  'same with a number (any of int, float, complex; for - and / in both orders, except number / vector coefficients) '
  'return a new object of the same class and size in which every mode, or every sample of the double sphere, of every '
  'component is the same operation applied to the operands\' entries.',
  ['inputs'], 'all sizes, contents, numbers, operators and operand orders',
  'Tests combine small objects with a few numbers and compare selected entries; a component or an operand order can '
  'be wrong without being sampled.',
  [SP], [('operator decorators and operator bodies', SP + ': _*_op_left, _*_op_right and __add__ ... __rtruediv__')])
p('C08', 'Invalid operands are rejected with the documented exception',
  'Combining two coefficient objects or two patterns of the same class raises ValueError exactly when their sizes '
  '(nmax and mmax, or nrows and ncols) differ; combining with an object that is neither of the same class nor a '
  'number raises TypeError; dividing by a number raises ZeroDivisionError exactly when the number is zero.  No '
  'operator silently returns a wrong-size result or an exception object.',
  ['inputs'], 'all pairs of sizes, all operators, all other classes, strings, None and tuples, all numbers',
  'Rejection must be exact for all pairs of sizes (including different sizes with equally many modes); tests try one '
  'or two pairs.',
  [SP], [('operand checks', SP + ': _*_op_left / _*_op_right decorators'),
         ('zero checks', SP + ': __div__, __truediv__')])
p('C09', 'Norms, magnitudes and power follow their formulas for every size',
  'L2_coef and L2_patt return the square root of the sum of squared magnitudes over all modes or double-sphere '
  'samples and components, LInf_coef and LInf_patt the largest magnitude (for two components the root of the sum of '
  'the squared component maxima), power the sum of squared magnitudes and angular_power_spectrum that sum for each n.  '
  'abs, mag and mag2 return objects or arrays with the elementwise magnitude or squared (total) magnitude, '
  'compare_relative the ratio of absolute sums, and unsupported argument types raise TypeError.',
  ['inputs'], 'all sizes and contents; each function with each supported class',
  'Tests evaluate them on a few constant or random objects; a missing component, mode or square is invisible for '
  'particular contents.',
  [SP], [('reductions', SP + ': L2_coef, LInf_coef, L2_patt, LInf_patt, power, angular_power_spectrum, mag, mag2, abs')])
p('C10', 'Vector coefficients never contain a monopole',
  'After construction from any arrays, after every factory, arithmetic operation, copy, truncation and mode '
  'assignment, the (0, 0) entry of both components of vector coefficients is zero.',
  ['inputs', 'histories'], 'all sizes, contents, operators, numbers and operand orders',
  'Transforms divide by n(n+1): a non-zero monopole is a latent corruption that only some operation sequences produce.',
  [SP], [('constructor clears the monopole', SP + ': VectorCoefs.__init__'),
         ('operators rebuild through the constructor', SP + ': _vector_coef_op_*')])
p('C13', 'Factories and constructors build what was asked for or raise',
  'zeros_coefs, ones_coefs and random_coefs return the requested class with the given nmax and mmax (zeros and ones '
  'with every mode 0 or 1) and raise ValueError exactly when mmax > nmax or mmax < 0 and TypeError for an unknown '
  'type; zeros_patt_uniform, ones_patt_uniform and random_patt_uniform do the same for nrows x ncols patterns and '
  'raise ValueError exactly when ncols is odd.  Constructors raise ValueError exactly when the data do not fit the '
  'stated sizes (number of modes for nmax and mmax; equal component shapes), and the nonuniform factories raise '
  'NotImplementedError.',
  ['inputs'], 'all integer sizes, all type arguments (0, 1, others), all array lengths',
  'The acceptance region is over all integers; tests try single values.',
  [SP], [('factories', SP + ': *_coefs, *_patt_uniform, *_patt_nonuniform'),
         ('constructors', SP + ': __init__ of the coefficient and pattern classes')])
p('C25', 'A rejected assignment or window leaves the object unchanged',
  'When an item assignment on scalar or vector coefficients or a call of window raises, every mode still has the '
  'value it had before the call.',
  ['inputs', 'histories'], 'all sizes, indices, values and lengths for which the operation raises',
  'Partial mutation before a late check is visible only for the combination of a failing argument and a later read of '
  'the object.',
  [SP], [('validation before mutation', SP + ': __setitem__, window')])
p('C26', 'window scales exactly the modes of each degree',
  'c.window(v) multiplies every mode c[n, m] by v[n], for all n and m, changes nothing else, and requires exactly '
  'nmax + 1 values.',
  ['inputs'], 'all sizes, contents and windows',
  'A test with one size and mmax equal to nmax does not exercise the other layouts.',
  [SP, PY], [('windowing loop', SP + ': ScalarCoefs.window')])

NA = []


def na(id, title, statement, qtext, why, files, mech, reason):
    p(id, title, statement, ['inputs'], qtext, why, files, mech)
    NA.append(dict(property=id, reason=reason))


NOTE = ('Every obligation is discharged by abstract interpretation of the current sources of /repo (Python syntax '
        'trees{c}) with a term domain: all sizes, indices and contents are symbols, branches are joined, loops are '
        'replaced by closed forms; no project code runs.  {extra}Trusted: the interpreter in /verif/sa, its models of '
        'Python and numpy, real arithmetic for floating point.')
EXTRA = {}
USES_C = set()
PENDING = 'not built yet'


def main():
    from props import REGISTRY
    import importlib
    try:
        importlib.import_module('spec_more').add(p, na, EXTRA, USES_C)
    except ImportError:
        pass
    PROPS.sort(key=lambda x: x['id'])
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for x in PROPS:
            assert len(x['title']) <= 80, x['title']
            f.write(json.dumps(x) + '\n')
    checks = []
    nas = dict((x['property'], x['reason']) for x in NA)
    for x in PROPS:
        i = x['id']
        if i in nas:
            continue
        if i not in REGISTRY:
            nas[i] = PENDING
            continue
        meta = REGISTRY[i][1]
        checks.append(dict(property=i, quick_cmd='python3 check.py --property %s --tier quick' % i,
                           thorough_cmd='python3 check.py --property %s --tier thorough' % i,
                           technique='abstract interpretation of the source: ' + meta['rule'],
                           level=meta['level'],
                           level_note=NOTE.format(c=' and clang\'s typed AST of the C sources' if i in USES_C else '',
                                                  extra=EXTRA.get(i, ''))))
    m = dict(version=1, setup_cmd='true', checks=checks,
             not_applicable=[dict(property=k, reason=v) for k, v in sorted(nas.items())],
             notes='See DESIGN.md.  Static analysis only; the checks read /repo and run nothing of it.')
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
