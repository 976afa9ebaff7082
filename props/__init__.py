"""property id -> (module, meta)"""
A_ENGINE = ['numpy behaves as modelled (sa/npmodel.py)', 'floating-point values are treated as real/complex numbers',
            'arguments have the stated Python types']


def P(mod, rule, how='', level='proof', extra=()):
    return (mod, dict(level=level, rule=rule, how=how or HOW, assumptions=A_ENGINE + list(extra)))


HOW = ('Abstract interpretation of the syntax trees of /repo: symbolic client code calls the public functions on '
       'symbolic sizes and contents; branches are joined, loops replaced by closed forms, and each result, raise '
       'condition or effect is compared, as a normalised term, with the specification. An obligation is proved when '
       'the normal forms agree under the path facts, violated when they differ and the difference is separated by an '
       'assignment to the symbols of the two terms, undecided (no alarm) otherwise.')

HOW_E = HOW + (' Here the effects are read off the abstract heap: the records (arrays, objects, lists, dictionaries, '
               'module and class namespaces, default values, closures, random stream and clock) reachable from the '
               'arguments and from the package before and after the call.')

HOW_C = HOW.replace('of /repo:', 'of /repo (Python and, from clang\'s syntax tree, src/csphi.c):')
A_C = ['memory allocation succeeds', 'kiss_fft computes the discrete Fourier transform within its buffers',
       'C int arithmetic does not overflow', 'the caller and the kernels share no other threads']

HOW_EC = HOW_E.replace('of /repo:', 'of /repo (Python and, from clang\'s syntax tree, src/csphi.c):')

HOW_L = ('Scoping, definite-binding, signature and message analysis of the syntax trees of all modules of the package: every '
         'name, attribute, message key, conversion and call form is resolved to its definition.  A use without a definition '
         'is reported with its function and line.')

REGISTRY = {
    'C01': P('effects', 'no record reachable from an argument changes, or the argument looks the same', how=HOW_EC, extra=A_C),
    'C02': P('effects', 'no record shared by result, arguments and package, or writes do not show', how=HOW_E),
    'C03': P('effects', 'no record of the package or arguments changes, or histories give equal results', how=HOW_EC, extra=A_C),
    'C04': P('patt', 'position formula equality and injectivity'),
    'C20': P('patt', 'symmetry identity of the result terms'),
    'C21': P('bessel', 'formula and recurrence equality'),
    'C22': P('patt', 'formula equality'),
    'C19': P('files', 'round-trip equality through an abstract file of line templates', extra=['float() of a 17-digit decimal gives back the double it was written from', 'nobody else writes the file']),
    'C23': P('optional', 'import, raise and argument equality with and without matplotlib'),
    'C24': P('names', 'scoping, message and call-form rules over all modules', how=HOW_L),
    'C05': P('index', 'index region and value equality'),
    'C06': P('index', 'assignment frame equality'),
    'C11': P('pipe', 'acceptance region equality'),
    'C12': P('pipe', 'result size equality'),
    'C14': P('native', 'bounds, null and lifetime condition of every native memory access', how=HOW_C, extra=A_C),
    'C15': P('native', 'allocation state of every native block on return', how=HOW_C, extra=A_C),
    'C16': P('native', 'formula equality of the kernels', how=HOW_C, extra=A_C),
    'C17': P('pipe', 'linearity judgement on result terms'),
    'C18': P('pipe', 'formula equality of the transform pipelines'),
    'C25': P('index', 'state unchanged on raise'),
    'C07': P('values', 'elementwise value equality'),
    'C08': P('values', 'raise region equality'),
    'C09': P('values', 'formula equality'),
    'C10': P('values', 'monopole zero'),
    'C13': P('values', 'factory contents and raise region equality'),
    'C26': P('values', 'window formula equality'),
    'C28': P('ops', 'formula equality of the Fourier-domain operators'),
}
