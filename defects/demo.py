"""Concrete demonstrations of the repaired defects (documentation only; no check
runs this).  /opt/venv/bin/python defects/demo.py, cwd /repo.  Every line prints
BAD on the original tree (7f34d41) and ok on the repaired one."""
import warnings
import numpy as np
warnings.simplefilter('ignore')
import spherepy as sp


def t(name, f):
    try:
        r = f()
    except Exception as e:
        r = 'raised %r' % e
    print('%-28s %s' % (name, 'ok' if r is True else 'BAD (%s)' % (r,)))


def raises(exc, f):
    try:
        r = f()
    except exc:
        return True
    except Exception as e:
        return 'raised %r' % e
    return 'returned %r' % (r,)


C, V = sp.ones_coefs, lambda a, b: sp.ones_coefs(a, b, coef_type=sp.vector)
p = sp.random_patt_uniform(6, 8)
for nm, x in (('ScalarCoefs', C(2, 2)), ('VectorCoefs', V(2, 2)), ('ScalarPattern', p),
              ('TransversePattern', sp.random_patt_uniform(6, 8, patt_type=sp.vector))):
    t('zero divide ' + nm, lambda: raises(ZeroDivisionError, lambda: x / 0))
t('vector size mismatch', lambda: raises(ValueError, lambda: V(5, 5) + V(0, 0)))
t('scalar size mismatch', lambda: raises(ValueError, lambda: C(3, 0) + C(1, 1)))
v = V(1, 1)
v.scoef2[1, 0] = 10
t('L2_coef vector', lambda: bool(abs(sp.L2_coef(v) - np.sqrt(3 + 102)) < 1e-9) or sp.L2_coef(v))
tp = sp.TransversePatternUniform(np.zeros((4, 4), complex), np.arange(16).reshape(4, 4) * (1 + 0j), doublesphere=True)
t('single_val phi', lambda: bool(tp.single_val[1] > 0) or tp.single_val)
c = C(1, 1) * 3
t('mag2 scalar', lambda: bool(sp.mag2(c)[1, 0] == 9) or sp.mag2(c)[1, 0])
d = C(3, 1)
def row():
    d[3, :] = [1, 2, 3]
    return bool(d[3, 1] == 3)
t('row assignment n > mmax', row)
t('negative truncation', lambda: raises(AttributeError, lambda: C(3, 3)[0:-2, :]))
t('negative truncation vec', lambda: raises(AttributeError, lambda: V(3, 3)[0:-2, :]))
t('ispht one row', lambda: raises(ValueError, lambda: sp.ispht(C(0, 0), 1, 2)))
t('negative sizes', lambda: raises(ValueError, lambda: sp.zeros_coefs(-4, -4)))
t('sph_harmonic_tp', lambda: sp.sph_harmonic_tp(5, 64, 2, 1).shape == (5, 64))
y = sp.sph_harmonic_tp(5, 8, 2, 1)
t('sph_harmonic_tp grid', lambda: bool(abs(y[1, 4] + y[1, 0]) < 1e-12) or abs(y[1, 4] + y[1, 0]))
t('sbessely N=1', lambda: sp.sbessely(1.0, 1).shape == (1,))
t('sbesselj N=1', lambda: sp.sbesselj(1.0, 1).shape == (1,))
t('spht mmax only', lambda: (sp.spht(p, mmax=1).nmax, sp.spht(p, mmax=1).mmax) == (4, 1))
a = np.zeros((3, 2), complex)
a[1, :] = 1e-200
t('double sphere underflow', lambda: bool(abs(sp.ScalarPatternUniform(np.full((4, 4), 1e-200 + 0j), doublesphere=False).array[1, 0] - 1e-200) < 1e-210))
t('double_sphere underflow', lambda: bool(abs(sp.spherepy.double_sphere(np.full((4, 4), 1e-200 + 0j), 1)[1, 0] - 1e-200) < 1e-210)
  if hasattr(sp, 'spherepy') else 'no module')
w = C(2, 2)
t('window length', lambda: raises(ValueError, lambda: w.window(np.ones(7))))
t('window untouched', lambda: bool((w._vec == 1).all()))
t('ispht of abs', lambda: sp.ispht(sp.abs(C(2, 2))).shape == (4, 6))
t('L2_coef type', lambda: raises(TypeError, lambda: sp.L2_coef(3)))
t('LInf_patt type', lambda: raises(TypeError, lambda: sp.LInf_patt(3)))
