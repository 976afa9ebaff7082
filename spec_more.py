SP = 'spherepy/spherepy.py'
PY = 'spherepy/pysphi.py'
SB = 'spherepy/sbessel.py'
OP = 'spherepy/ops.py'
CC = 'src/csphi.c'


def add(p, na, EXTRA, USES_C):
    USES_C.update(['C01', 'C03', 'C14', 'C15', 'C16'])
    p('C11', 'Transforms accept exactly the sizes their formulas cover and reject the rest',
      'spht and vspht raise ValueError exactly when not 0 <= mmax <= nmax <= nrows - 2 and 2*mmax < ncols, and ispht '
      'and vispht exactly when nrows < max(2, nmax + 1) (nmax + 2 for vispht), ncols < 2*mmax + 2 or ncols is odd, '
      'with the documented defaults (nmax = nrows - 2, mmax = min of nmax and ncols/2 - 1 as documented per argument '
      'combination; nrows = nmax + 2, ncols = 2*mmax + 2) filled in first.  No other exception leaves a transform of '
      'a valid object, with the native extension or without it.',
      ['inputs'], 'all pattern and coefficient sizes, all integers nmax, mmax, nrows, ncols, each argument given or '
      'omitted, both kernel back ends',
      'The acceptance region is over four integers and two back ends; tests try a few sizes.  Sizes past the region '
      'make the kernels read or write outside their arrays.',
      [SP], [('size checks and defaults', SP + ': spht, vspht, ispht, vispht')])
    p('C12', 'Transform results have the requested or default sizes',
      'The coefficients returned by spht and vspht have the requested nmax and mmax and the pattern returned by ispht '
      'and vispht the requested nrows and ncols, with doubled-sphere data of size (2*nrows - 2) x ncols and sphere '
      'data of size nrows x ncols for each component; omitted sizes are nmax = nrows - 2, mmax = nmax (or '
      'ncols/2 - 1 when nmax is omitted too), nrows = nmax + 2, ncols = 2*mmax + 2.  Each function returns its own '
      'class (scalar or vector).',
      ['inputs'], 'all valid sizes, each argument given or omitted, both kernel back ends',
      'Tests use the defaults of a few sizes, where wrong size formulas coincide.',
      [SP], [('defaults and result construction', SP + ': spht, vspht, ispht, vispht')])
    p('C17', 'The transforms are linear in their data',
      'spht, vspht, ispht and vispht are linear: the transform of alpha*x + beta*y is alpha times the transform of x '
      'plus beta times the transform of y, for all complex alpha, beta, for every mode or sample and component, and '
      'whether a transform raises does not depend on the data.  The kernels enter as unspecified linear operators.',
      ['inputs'], 'all data, all scalars, all sizes, both kernel back ends',
      'A data-dependent special case (clipping, skipping zeros, a magnitude) is linear on the random data of a test.',
      [SP, PY], [('transform pipelines', SP + ': spht, vspht, ispht, vispht')])
    p('C18', 'The transforms compute the documented Fourier-domain pipeline',
      'spht(p, nmax, mmax) equals the kernel fc_to_sc applied to sin(theta) times the normalised two-dimensional FFT of the '
      'doubled data with the rows at and beyond the Nyquist row dropped; vspht combines the two component spectra as '
      'i(i m T - i d/dtheta sin P) and its rotated counterpart and divides mode (n, m) by sqrt(n(n+1)); ispht is the '
      'inverse FFT of sc_to_fc of the modes; vispht uses the divided modes, division by sin(theta) and the two '
      'derivatives; for every sample and mode, with both back ends.',
      ['inputs'], 'all data, all valid sizes, all modes and samples, both kernel back ends, real and complex data',
      'Round-trip tests cannot see errors that cancel between a forward and an inverse transform, and small sizes hide '
      'mistakes in rows and columns near the Nyquist frequency.',
      [SP, OP], [('transform pipelines', SP + ': spht, vspht, ispht, vispht'),
                 ('Fourier-domain operators', OP + ': fix_even_row_data_fc, pad_rows_fdata, sin_fc, dphi_fc, sinLdot_fc, L_fc')])
    p('C28', 'The Fourier-domain operators compute their formulas',
      'In spherepy.ops, for arrays with an even number of rows: fix_even_row_data_fc zeroes exactly the Nyquist row; '
      'pad_rows_fdata places the low rows at the start and the high rows at the end of the larger array with zeros '
      'between, and raises exactly when the target has fewer rows; sin_fc is (f[k-1] - f[k+1]) / 2i with wrap-around after '
      'the two rows next to the Nyquist row are zeroed; divsin_fc is its inverse (g[k-1] - g[k+1] = 2i f[k] inside and '
      'zero on the Nyquist row and its neighbours); dtheta_fc and dphi_fc multiply by i times the signed row or '
      'column frequency; sinLdot_fc and L_fc combine these.',
      ['inputs'], 'all data, all numbers of rows (at least 2, 4 or 6 as the operator needs) and columns, all entries',
      'Only compositions are tested, on a few sizes; an error at one row or for one parity is invisible there.',
      [OP], [('operators', OP + ': fix_even_row_data_fc ... L_fc')])
    p('C14', 'The native kernels stay inside their memory',
      'For every size, spht, vspht, ispht and vispht call the native kernels only with contiguous double-complex arrays of '
      'the right rank and sizes (even number of rows, 0 <= mmax <= nmax, columns enough for mmax, an output or input of '
      'exactly the number of modes), and for every such call each load, store, memset and transform in fc_to_sc, '
      'sc_to_fc and the functions they use stays inside a live block or array; no null or freed block is used.  The '
      'extension passes each array with its own sizes.',
      ['inputs'], 'all pattern and coefficient sizes, all nmax, mmax, nrows, ncols, all memory accesses of the kernels',
      'An access one element outside a block rarely crashes; tests run a handful of sizes and look at results only.',
      [CC, SP, 'src/csphi_wrap.c'], [('kernels', CC + ': fc_to_sc, sc_to_fc, bnm_fc, hkm_fc, fcvec_m_sc, ynunm, SData, FindQ'),
       ('size checks before the calls', SP + ': spht, vspht, ispht, vispht')])
    p('C15', 'The native kernels free what they allocate',
      'For all sizes, every block allocated by malloc or kiss_fft_alloc in a native kernel is freed exactly once before the '
      'kernel returns, nothing else is freed, and blocks of the caller stay allocated.',
      ['inputs'], 'all sizes, all allocation sites and return paths of src/csphi.c',
      'A leak or a double free changes no result; tests do not watch the allocator.',
      [CC], [('scratch buffers and FFT configurations', CC + ': fc_to_sc, sc_to_fc, ynunm')])
    p('C16', 'The native and the Python kernels compute the same transform',
      'pysphi.fc_to_sc and the native fc_to_sc both give, for every mode (n, m), '
      'i^-m (h(m, 0) y(n, m, 0) + 2 sum_{k=1..n} h(m, k) y(n, m, k)) with h the convolution of the column of '
      'Fourier data (an even number of rows, the Nyquist row zero, as the transforms pass it) with -i/nu at odd nu (times 4 pi), and pysphi.sc_to_fc and the native sc_to_fc both give the Fourier data of the '
      'modes, i^m sum_n c(n, m) y(n, m, k) at row k and (-1)^m times it at row -k, zero elsewhere; y(n, m, k) satisfies the '
      'three-term recurrence and start value of the spherical harmonics.  So both back ends agree for every size.',
      ['inputs'], 'all sizes (even row counts), all data, all modes, rows and columns',
      'Tests compare the two back ends on a few sizes; parity, sign and last-row errors need particular sizes.',
      [PY, CC], [('Python kernels', PY + ': fc_to_sc, sc_to_fc, ynunm, hkm_fc, bnm_vec_fc, fcvec_m_sc, s_data'),
                 ('native kernels', CC + ': fc_to_sc, sc_to_fc, ynunm, hkm_fc, bnm_fc, fcvec_m_sc, SData, FindQ')])

    p('C01', 'Operations leave their inputs unchanged',
      'No arithmetic operator, norm, reduction, abs/mag, copy, slice, property, printing, sphere doubling, constructor '
      'or transform (with the native extension or without) changes a coefficient object, pattern or array given to it: every '
      'mode, sample, size and array element reads the same afterwards, also when the call raises.  Item assignment and '
      'window change only their object, take over the values (a later change of the array does not show), and do not change '
      'the array that is assigned or used as window.',
      ['inputs', 'histories'], 'all public operations, all sizes and contents, both kernel back ends',
      'Tests look at results; an in-place shortcut (+=, out=, a view) on an input is seen only by a caller who uses the input '
      'again.',
      [SP, OP, PY, CC], [('operators and functions on objects', SP + ': _scalar_coef_op_*, _vector_coef_op_*, norms, mag, abs'),
                         ('transforms and doubling', SP + ': spht, vspht, ispht, vispht, continue_sphere, double_sphere'),
                         ('in-place array code', OP + ', ' + PY + ', ' + CC)])
    p('C02', 'Results own their storage',
      'A coefficient object, pattern or array returned by an operator, copy, abs/mag, slice, transform, factory, or a '
      'pattern constructor given plain sphere arrays, shares no storage with the operands, with the results of other calls or '
      'between its two components: writing a mode or an element of one never changes another.  (Properties that expose an '
      "object's own array, and data handed over with doublesphere=True, are not covered.)",
      ['inputs', 'histories'], 'all public operations, all sizes and contents, both kernel back ends, writes on either side',
      'A shared array behaves correctly until somebody writes to one of the two objects.',
      [SP, OP, PY], [('result construction', SP + ': copy, operators, mag, spht, ispht, vspht, vispht, *_coefs, *_patt_uniform')])
    p('C03', 'Results depend on the arguments only',
      'Every public operation except the random factories gives the same result whenever it is called with the same '
      'arguments: nothing that an earlier call leaves in modules, classes, default values, function attributes, caches or the '
      'argument objects themselves (a stored norm, say) changes a later result, also after the argument has been changed in '
      'between, and no result depends on the clock or on random numbers.',
      ['histories'], 'all public operations except random_*, all sizes and contents, any earlier call on other sizes and data, '
      'any mode assignment between two calls, both kernel back ends',
      'A stale cache needs two calls that collide in the key, or a call, a write and a call; tests call once per object.',
      [SP, PY, CC], [('module and class state', SP + ', ' + PY), ('static data of the native kernels', CC)])
    p('C04', 'Modes are stored in one documented order without collision',
      'A coefficient vector holds the modes of order 0 (n = 0..nmax) first, then for k = 1..mmax the block of order -k '
      'followed by the block of order +k (n = k..nmax each).  For every nmax, mmax and mode, reading, writing, size, '
      'pysphi.mindx and the two-dimensional form used for plots agree on this order: ScalarCoefs(v)[n, m] and both components '
      'of VectorCoefs read the entry at that position, an assignment changes only its own mode, the blocks follow each other '
      'without gap or overlap and fill exactly size entries, and mindx raises exactly for |m| > mmax.',
      ['inputs'], 'all nmax, mmax, all pairs of modes, all contents',
      'Two modes that collide only for mmax < nmax, or one off-by-one at the last block, pass every test of a few sizes; the '
      'kernels and the containers compute the positions independently.',
      [SP, PY], [('mode positions', SP + ': ScalarCoefs.__getitem__, __setitem__, size, _array_2d_repr'), ('mode positions in the kernels', PY + ': mindx')])
    p('C20', 'Pattern data have double-sphere symmetry and expose the given samples',
      'A pattern built from sphere samples f (nrows x ncols, ncols even) has doubled data g of 2*nrows - 2 rows with '
      'g[-i, j + ncols/2] = s g[i, j] for every row and column (indices modulo the sizes; s = 1 for scalar, -1 for '
      'transverse data, each component), rows between the poles equal f, and a pole row is the mean of f and its mirror '
      'point (or the one that is not zero).  double_sphere gives the same symmetry to any array.  array, cdata, theta, phi and '
      'array(p) are the first nrows rows of doublesphere / theta_double / phi_double, and nrows, ncols and shape fit.',
      ['inputs'], 'all sizes (nrows >= 2, even ncols >= 2), all data, all rows and columns, both components',
      'The transforms silently give wrong modes on data without the symmetry; an error in one pole row, half or component '
      'is invisible on symmetric test data.',
      [SP], [('doubling', SP + ': continue_sphere, double_sphere'), ('patterns', SP + ': ScalarPatternUniform, TransversePatternUniform')])
    p('C21', 'The spherical Bessel functions satisfy their formulas and recurrences',
      'For every real x != 0 and N >= 1, sbessely(x, N) and sbesselj(x, N) are vectors of N numbers with y_0 = -cos(x)/x, '
      'y_1 = -cos(x)/x^2 - sin(x)/x, j_0 = sin(x)/x, and f_{n-1} + f_{n+1} = (2n+1)/x f_n inside the vector (for j from '
      'n = 2 on, and for n = 1 where |j_0| >= |sin(x)/x^2 - cos(x)/x|; otherwise j_1 is that value).  sbesselh1 and '
      'sbesselh2 are j + i y and j - i y.  None raises anything but a ZeroDivisionError for an argument at which a '
      'denominator of the continued fraction for j vanishes.',
      ['inputs'], 'all real x != 0 and all N >= 1',
      'Tests check the cross product and the sum for a few arguments and lengths; the recurrence relates all lengths '
      'and short vectors (N = 1, 2, 3) take branches of their own.',
      [SB], [('upward recurrence', SB + ': sbessely'), ('continued fraction', SB + ': sbesselj')])
    p('C22', 'sph_harmonic_tp samples its spherical harmonic on the documented grid',
      'sph_harmonic_tp(nrows, ncols, n, m) returns the nrows x ncols array whose entry (i, j) is '
      'i^m exp(i m phi_j) sum_{k=-n..n} y_k exp(i k theta_i) with theta_i = pi i / (nrows - 1), phi_j = 2 pi j / ncols, y_k '
      'the value of ynunm at |k|, times (-1)^m for k < 0, for all nrows >= 2, ncols >= 1 and |m| <= n, and raises nothing.',
      ['inputs'], 'all sizes, all modes, all samples',
      'The function is the reference the other results are compared with; tests use a few modes on one grid.',
      [SP], [('sampled harmonics', SP + ': sph_harmonic_tp')])
    p('C23', 'Plotting is optional and only plotting needs matplotlib',
      'Without matplotlib the package imports with all its public names, and every plot routine (simple_plot, '
      'plot_mag_on_sphere, plot_sphere_mag, pcolor_coefs, plot_coefs), however it is called, raises ImportError with a message '
      'that names matplotlib.  With matplotlib the check in front of the plot routines (matplotlibensure) hands on exactly the '
      'positional and keyword arguments it is given and returns the result of the routine.',
      ['inputs'], 'all plot routines, all arguments, with and without matplotlib',
      'The tests run in one environment, with or without matplotlib, and call no plot routine.',
      ['spherepy/plot_sphere.py', 'spherepy/__init__.py'],
      [('optional import and decorator', 'spherepy/plot_sphere.py: matplotlibensure')])
    p('C24', 'Errors are the documented ones: everything the code refers to exists',
      'No path of the package, error paths, optional features and file and plot routines included, can end in an internal '
      'NameError, UnboundLocalError, AttributeError, KeyError or call TypeError: every name used is defined or imported (local '
      'names on some path before), every err_msg key exists and its conversions match the values given, what is raised is an '
      'exception, every call of a package function or class fits its signature, every attribute of self, of a package module and '
      'of numpy exists.  The documented public names of the package and the public members of its four classes exist.',
      ['inputs'], 'all modules of the package except the generated SWIG proxy; all names, attributes, message uses and calls',
      'A wrong name on an error path or in a plot routine shows only when exactly that path runs; the tests do not run the plot '
      'routines, and most error paths never.',
      [SP, 'spherepy/file.py', 'spherepy/plot_sphere.py', 'spherepy/verify.py', 'spherepy/sbessel.py'],
      [('messages', SP + ': err_msg'), ('public names', 'spherepy/__init__.py')])
    p('C19', 'Saved files load back to the same object',
      'load_coef of a file written by save_coef gives coefficients with the same nmax, mmax and exactly the same modes; load_patt '
      'of a file written by save_patt gives the pattern that ScalarPatternUniform builds from the saved samples, load_vpatt of two '
      'such files the TransversePatternUniform of both, load_fdata the samples themselves; saving over an old file replaces it.  '
      'Files in the documented form (header, then one line per sample or mode; vector coefficients with a directivity in the header '
      'and the word break between the two components) load to exactly the values they list.  None of these calls raises for a valid object.',
      ['inputs', 'histories'], 'all sizes and contents of coefficients and patterns (even ncols), all modes and samples, any file saved before',
      'Tests load one or two stored files; a lost digit, a swapped index or a leftover of an older file needs particular data.',
      ['spherepy/file.py'], [('saving', 'spherepy/file.py: save_coef, save_patt'),
                             ('loading', 'spherepy/file.py: load_coef, load_patt, load_vpatt, load_fdata, load_vcoef')])
