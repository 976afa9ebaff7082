"""C23 plotting is optional: nothing else needs matplotlib."""
from .fix import *
from sa.harness import World
from sa import harness as HA

PLOTS = ('simple_plot', 'plot_mag_on_sphere', 'plot_sphere_mag', 'pcolor_coefs', 'plot_coefs')
Q = isym('q')


def imported(ck, mpl):
    s = 'spherepy/__init__.py'
    try:
        w = ck.world(mpl=mpl, key='plots %s' % mpl)
    except PathEnd:
        ck.violated('import spherepy', 'the package cannot be imported %s matplotlib' % ('with' if mpl else 'without'), s)
        return None
    ck.proved('the package can be imported %s matplotlib' % ('with' if mpl else 'without'), s)
    return w


def args_of(w, st, f):
    if f == 'simple_plot':
        return st, [iv(n), iv(m)]
    if f == 'plot_mag_on_sphere':
        return st, [w.array(st, 'T', [R, C], 'float64')]
    if f == 'plot_sphere_mag':
        st, p = dpatt(w, st)
        return st, [p]
    st, c = scoefs(w, st)
    return st, [c]


def t_without(ck):
    w = imported(ck, False)
    if w is None:
        return
    for f in PLOTS:
        st = w.start(*(size_facts() + patt_facts()))
        st, a = args_of(w, st, f)
        s = fn_site(w, 'plot_sphere.' + f)
        if w.run(st, lambda x: w.I.getattr(x, w.pkg, f)).ok:
            ck.proved('spherepy.%s exists without matplotlib' % f, s)
        else:
            ck.violated('spherepy.%s exists without matplotlib' % f, 'no such name', s)
            continue
        for lab, o in (('', w.call(st, f, *a)), (' called without arguments', w.call(st, f))):
            for s2, e, where in o.recs:
                if not is_exc(e, 'ImportError'):
                    ck.never('%s%s raises %s instead of ImportError' % (f, lab, e), c_and(o.conds(s2)), s2, s, where)
                elif not e.args or not isinstance(e.args[0], StrV):
                    ck.undecided('%s%s tells what to install' % (f, lab), 'message not identified', s)
                elif 'matplotlib' in ''.join(x for x in e.args[0].parts if isinstance(x, str)):
                    ck.proved('%s%s tells what to install' % (f, lab), s)
                else:
                    ck.violated('%s%s tells what to install' % (f, lab), 'the message does not name matplotlib', s, got=str(e.args[0])[:200])
            if o.ok:
                ck.never('%s%s returns without matplotlib' % (f, lab), c_and(o.conds(o.st)), o.st, s)


def t_rest(ck):
    """what does not plot gives the same with and without matplotlib"""
    w0, w1 = imported(ck, False), imported(ck, True)
    if w0 is None or w1 is None:
        return
    s = 'spherepy/__init__.py'
    hide = ('plt', 'Axes3D', 'MPLINSTALLED')
    have = []
    for w in (w0, w1):
        rec = w.st0.get(w.pkg.id)
        have.append(set(k for k in rec.d if not k.startswith('_')) - set(hide))
    lost = sorted(have[1] - have[0])
    if lost:
        ck.violated('public names without matplotlib', 'missing: ' + ', '.join(lost), s)
    else:
        ck.proved('public names without matplotlib', s, '%d names' % len(have[0]))


def t_through(ck):
    """the check in front of the plot routines hands on what it is given"""
    w = imported(ck, True)
    if w is None:
        return
    s = fn_site(w, 'plot_sphere.matplotlibensure')
    for f, pos_, kw in (('zeros_coefs', [iv(N), iv(M)], {'coef_type': 'vector'}),
                        ('ones_coefs', [iv(N)], {'mmax': iv(M)}),
                        ('ones_coefs', [iv(N), iv(M)], {}),
                        ('zeros_patt_uniform', [], {'nrows': iv(R), 'ncols': iv(2 * C)})):
        st = w.start(*(size_facts() + patt_facts()))
        k2 = dict((a, w.get(st, b) if isinstance(b, str) else b) for a, b in kw.items())
        d = w.call(st, 'plot_sphere.matplotlibensure', w.get(st, f))
        if not d.ok:
            raise Skip('decorator raises')
        o = w.call(d.st, d.val, *pos_, **k2)
        want = w.call(st, f, *pos_, **k2)
        lab = 'matplotlibensure(%s)(%s)' % (f, ', '.join(['...'] * len(pos_) + sorted(kw)))
        ck.raises(lab, o, {}, st, s)
        if not o.ok or not want.ok:
            continue
        from .effects import observe
        a, b = observe(w, o.st, o.val), observe(w, want.st, want.val)
        if [x[0] for x in a] != [x[0] for x in b]:
            if isinstance(o.val, NoneT):
                ck.violated(lab, 'the result is lost', s)
            else:
                ck.undecided(lab, 'different structure', s)
            continue
        for (la, sa, ta), (lb, sb, tb) in zip(a, b):
            ck.eq(lab + la, ta, tb, sa, s)


TASKS = {'C23': [('without matplotlib', t_without), ('the rest of the package', t_rest), ('arguments', t_through)]}
