"""Obligation bookkeeping: comparing abstract results with the specification,
task scheduling in forked workers, evidence and replay files."""
import json
import os
import resource
import select
import signal
import sys
import time
import traceback

from .api import *
from . import terms as T
from . import facts as FA
from . import model as MD

ROOT = os.environ.get('SPHEREPY_ROOT', '/repo')
PROVED, VIOLATED, UNDECIDED = 'proved', 'violated', 'undecided'


class Timeout(BaseException):
    pass


class Skip(Exception):
    """public anchor absent or analysis result unusable: no verdict"""


def clip(s, n=400):
    s = str(s)
    return s if len(s) <= n else s[:n] + '...'


_worlds = {}


def world(use_cext=False, mpl=True, native=None, key=None):
    k = (use_cext, mpl, key)
    w = _worlds.get(k)
    if w is None:
        w = World(ROOT, use_cext, mpl, native or StubNative())
        _worlds[k] = w
    return w


class StubNative(object):
    """stands for the compiled extension where its behaviour is irrelevant"""
    def attr(self, interp, st, name):
        return BuiltinV('native:' + name, lambda i, s, a, k: i.unknown('native call'))


class Ck(object):
    def __init__(self, prop, task, tier, only=None):
        self.prop, self.task, self.tier = prop, task, tier
        self.results = []
        self.functions = {}
        self.only = only
        self._w = []

    # -- worlds
    def world(self, **kw):
        w = world(**kw)
        w.I.functions = set()
        w.I.unknowns.clear()
        self._w.append(w)
        return w

    def thorough(self):
        return self.tier == 'thorough'

    # -- reporting
    def add(self, name, status, detail='', site=None, **kw):
        r = dict(obligation='%s/%s' % (self.task, name), status=status)
        if detail:
            r['detail'] = clip(detail, 1500)
        if site:
            r['site'] = site
        for k, v in kw.items():
            r[k] = clip(v, 1200) if isinstance(v, str) else v
        self.results.append(r)
        return status

    def proved(self, name, site=None, detail=''):
        return self.add(name, PROVED, detail, site)

    def undecided(self, name, why, site=None):
        return self.add(name, UNDECIDED, why, site)

    def violated(self, name, why, site=None, **kw):
        return self.add(name, VIOLATED, why, site, **kw)

    def budget(self, s):
        return s * (4 if self.thorough() else 1)

    # -- comparisons
    def facts(self, st):
        if isinstance(st, (list, tuple)):
            return FA.Facts(st)
        return st.F if hasattr(st, 'path') else st

    def eq(self, name, got, want, st, site=None, guard=None, limit=60, splits=(), hints=(), stk=None, lemmas=(), budget=12):
        """the two numeric terms are equal under the facts"""
        got = num(got) if not isinstance(got, Num) else got
        want = num(want) if not isinstance(want, Num) else want
        F = self.facts(st)
        if guard is not None:
            F = F.add(guard)
        if F.contradictory():
            return self.proved(name, site, 'vacuous')
        FA.deadline(self.budget(budget))
        try:
            for lm in lemmas:
                got = lm.apply(self, got, F)
            if self.eq_cases(got, want, F, list(splits), hints):
                return self.proved(name, site)
            if stk and self.eq_stk(got, want, F, list(splits), hints, stk):
                return self.proved(name, site)
        except (RecursionError, FA.OutOfTime):
            pass
        finally:
            FA.deadline(None)
        s, info = MD.separate(got, want, F, limit=limit, budget=self.budget(25))
        if s == 'diff':
            return self.violated(name, 'value differs from the specification', site,
                                 got=clip(got, 700), expected=clip(want, 700), separation=jsonable(info))
        return self.undecided(name, '%s: %s; got %s, want %s' % (s, info, clip(got, 500), clip(want, 300)), site)

    def eq_stk(self, got, want, F, splits, hints, stk):
        """got is the value left by a loop of writes: every write that covers
        the position writes want, and when the candidate iterations do not
        write, the previous value is want"""
        mono = [a for a in got.atoms() if a.kind == 'stk']
        if len(mono) != 1 or from_atom(mono[0]) != got:
            return False
        q, n, segs, default = mono[0].args
        mk, cands, off, dspl = stk
        mm = from_atom(T.fresh_atom('j', 'int'))
        j = mm + off
        sp, hn = mk(mm)
        Fj = F.add(le(ZERO, j), le(j, n - 1))
        for (s, l, g, v) in segs:
            conds = [le(s(j), q), lt(q, s(j) + l(j)), g(j, q)] if not (l(j) - 1).is_zero() else [eq(s(j), q), g(j, q)]
            if not self.eq_cases(v(j, q), want, Fj.add(*conds), sp, list(hn)):
                return False
        none = []
        for c in cands:
            for (s, l, g, v) in segs:
                none.append(c_not(c_and([le(ZERO, c), le(c, n - 1), le(s(c), q), lt(q, s(c) + l(c)), g(c, q)])))
        return self.eq_cases(default, want, F.add(*none), dspl, hints)

    def eq_cases(self, got, want, F, splits, hints=()):
        """case analysis over the split conditions; at the leaves products of
        proven non-negative factors are added to the facts"""
        if F.contradictory():
            return True
        if splits:
            c = F.simp_cond(splits[0])
            known = F.decide(c) if c.k not in ('T', 'F') else None
            if c.k in ('T', 'F') or (known is not None and not (known and c.k == 'eq' and solved(c.a))):
                return self.eq_cases(got, want, F, splits[1:], hints)
            yes = None
            if c.k == 'eq':
                mp = solved(c.a)
                if mp:
                    sb = lambda x: T.subst(x, mp)
                    yes = self.eq_cases(sb(got), sb(want), FA.Facts().add(*[sb(f) for f in F.conds]),
                                        [sb(x) for x in splits[1:]], [(sb(x), sb(y)) for x, y in hints])
            if yes is None:
                yes = self.eq_cases(got, want, F.add(c), splits[1:], hints)
            return yes and (known is True or self.eq_cases(got, want, F.add(c_not(c)), splits[1:], hints))
        F = FA.Facts([F.simp_cond(c) if c.k not in ('eq',) else c for c in F.conds])
        eqs = [c for c in F.conds if c.k == 'eq' and any(a.kind in ('ite', 'abs') for a in c.a.atoms())]
        if eqs:
            rest = FA.Facts([c for c in F.conds if c not in eqs])
            F = rest.add(*[rest.simp_cond(c) for c in eqs])
            if F.contradictory():
                return True
        new = []
        for x, y in hints:
            x, y = F.simp(x), F.simp(y)
            if F.holds(le(ZERO, x)) and F.holds(le(ZERO, y)):
                new.append(le(ZERO, x * y))
        F = F.add(*new)
        return F.contradictory() or FA.equal(F.simp(got), F.simp(want), F)

    def holds(self, name, cond, st, site=None, why='condition does not hold', limit=80):
        F = self.facts(st)
        if F.contradictory():
            return self.proved(name, site, 'vacuous')
        if F.decide(cond) is True:
            return self.proved(name, site)
        bad = c_not(cond)
        s, info = MD.witness(bad, F, limit=limit)
        if s == 'sat':
            return self.violated(name, why, site, condition=clip(cond, 700), separation=jsonable(info))
        return self.undecided(name, '%s: %s; %s' % (s, info, clip(cond, 600)), site)

    def never(self, name, cond, st, site=None, why='reachable', limit=80):
        F = self.facts(st)
        if cond.k == 'F' or F.contradictory():
            return self.proved(name, site)
        if F.add(cond).contradictory() or F.decide(cond) is False:
            return self.proved(name, site)
        s, info = MD.witness(cond, F, limit=limit)
        if s == 'sat':
            return self.violated(name, why, site, condition=clip(cond, 700), separation=jsonable(info))
        return self.undecided(name, '%s: %s; %s' % (s, info, clip(cond, 600)), site)

    def iff(self, name, got, want, st, site=None, why='condition differs from the specification'):
        """the two conditions are equivalent under the facts"""
        F = self.facts(st)
        if F.contradictory():
            return self.proved(name, site, 'vacuous')
        todo = []
        for a, b, lab in ((got, want, 'too often'), (want, got, 'too rarely')):
            bad = c_and([a, c_not(b)])
            if bad.k == 'F':
                continue
            ok = False
            fa = F.add(a)
            if fa.contradictory() or fa.decide(b) is True or F.decide(bad) is False:
                ok = True
            if not ok and b.k == 'and':
                ok = all(fa.decide(x) is True for x in b.a)
            if not ok and a.k == 'or':
                ok = all(F.add(x).contradictory() or F.add(x).decide(b) is True for x in a.a)
            if not ok:
                todo.append((bad, lab))
        if not todo:
            return self.proved(name, site)
        msgs = []
        for bad, lab in todo:
            s, info = MD.witness(bad, F)
            if s == 'sat':
                return self.violated(name, '%s (%s)' % (why, lab), site, got=clip(got, 600),
                                     expected=clip(want, 600), separation=jsonable(info))
            msgs.append('%s %s: %s' % (lab, s, info))
        return self.undecided(name, '; '.join(msgs) + ' got ' + clip(got, 400) + ' want ' + clip(want, 300), site)

    # -- outcomes of abstract calls
    def raises(self, name, out, want, st, site=None, within=None):
        """out raises exactly the exceptions in {class name: condition}"""
        for cls, c in want.items():
            self.iff('%s raises %s' % (name, cls), out.raise_cond(cls), c, st, site,
                     'raising condition of %s differs from the specification' % cls)
        for s, e, where in out.recs:
            if not any(is_exc(e, k) for k in want):
                c = c_and(out.conds(s))
                self.never('%s no other exception %s' % (name, e), c, st, site,
                           'unexpected %r raised at %s' % (e, where))

    def okval(self, name, out, site=None):
        if not out.ok:
            raise Skip('%s: no normal completion (%s)' % (name, [str(e) for _, e, _ in out.recs][:3]))
        return out.st, out.val


class Lemma(object):
    """identifies the applications of a linear operator whose array argument is
    elementwise equal to that of the wanted application: it replaces them by the
    wanted one.  at(indices) -> (point, conditions, splits, hints) lists points
    that cover the whole domain"""
    def __init__(self, want, at=None):
        self.want = want                  # a dft atom
        self.at = at
        self.memo = {}

    def apply(self, ck, got, F):
        w = self.want

        def fn(a):
            if a.kind != 'dft' or a is w or a.args[0] != w.args[0] or len(a.args) != len(w.args) \
                    or len(a.args[1]) != len(w.args[1]) or a.args[2] is w.args[2]:
                return None
            np_ = len(w.args) - 3 - w_rank(w)
            key = (a.args[1], a.args[2], a.args[3:3 + np_])
            if key not in self.memo:
                self.memo[key] = self.same(ck, a, np_, F)
            if not self.memo[key]:
                return None
            return from_atom(T.mk_atom('dft', w.args[:3 + np_] + a.args[3 + np_:], 'complex'))
        return T.map_atoms(got, fn)

    def same(self, ck, a, np_, F):
        w = self.want
        for x, y in list(zip(a.args[1], w.args[1])) + list(zip(a.args[3:3 + np_], w.args[3:3 + np_])):
            if x != y and FA.equal(x, y, F) is not True:
                return False
        k = len(w.args[1])
        vs = [from_atom(T.fresh_atom('d')) for _ in range(k)]
        if self.at is None:
            pt, conds, splits, hints = vs, [c for v, n in zip(vs, w.args[1]) for c in (le(ZERO, v), lt(v, n))], [], []
        else:
            pt, conds, splits, hints = self.at(*vs)
        return ck.eq_cases(a.args[2](*pt), w.args[2](*pt), F.add(*conds), splits, hints) is True


RANK = {'fc_to_sc': 1, 'sc_to_fc': 2, 'divsin': 2}


def w_rank(a):
    return RANK.get(a.args[0], len(a.args) - 3)


def solved(p):
    """{symbol: term} when p == 0 can be solved for a symbol with coefficient 1 or -1"""
    for mn, cf in sorted(p.t.items(), key=lambda kv: str(kv[0])):
        if len(mn) == 1 and mn[0][1] == 1 and mn[0][0].kind == 'sym' and cf in (1, -1):
            a = mn[0][0]
            rest = Num({q: c for q, c in p.t.items() if q != mn})
            if a in T.num_syms(rest):
                continue
            return {a: rest.scale(-1) if cf == 1 else rest}
    return None


def jsonable(x):
    if isinstance(x, dict):
        return dict((str(k), jsonable(v)) for k, v in x.items())
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, complex):
        return [x.real, x.imag]
    if isinstance(x, (int, float, str, bool)) or x is None:
        return x
    return str(x)


def fn_site(w, path, st=None):
    """file:line of a public function or method"""
    st = st or w.st0
    try:
        v = w.pkg
        for p in path.split('.'):
            if isinstance(v, ClassV):
                v = w.I.find_attr(st, v, p)
            else:
                v = w.I.getattr(st, v, p)
        while isinstance(v, (Bound, StaticV)):
            v = v.fn
        if isinstance(v, PropV):
            v = v.get
        if isinstance(v, FuncV):
            return '%s (%s.py:%d)' % (path, v.module[1].replace('.', '/'), v.node.lineno)
    except BaseException:
        pass
    return path


# -------------------------------------------------------------------------- scheduling
def run_task(prop, task, tier, lim):
    name, fn = task[0], task[1]
    ck = Ck(prop, name, tier)
    err = None
    t = time.time()

    def onalarm(*a):
        raise Timeout()
    signal.signal(signal.SIGPROF, onalarm)
    signal.setitimer(signal.ITIMER_PROF, lim)
    try:
        fn(ck)
    except Skip as e:
        err = 'skipped: %s' % e
    except Timeout as e:
        tb = traceback.extract_tb(e.__traceback__)
        err = 'time budget of %ds used up' % lim
    except PathEnd:
        err = 'analysis: path ended'
    except (MemoryError, RecursionError) as e:
        err = 'analysis: %s' % type(e).__name__
    except BaseException as e:
        tb = traceback.extract_tb(e.__traceback__)
        err = 'analysis: %r at %s' % (e, ' < '.join('%s:%d' % (f.name, f.lineno) for f in tb[::-1][:5]))
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
    if err:
        ck.add('completion', UNDECIDED, err)
    fs, unk = set(), set()
    for w in ck._w:
        fs |= set(w.I.functions)
        unk |= set(str(u) for u in w.I.unknowns)
    return dict(task=name, results=ck.results, functions=sorted(fs), imprecision=sorted(unk)[:20],
                wall_s=round(time.time() - t, 2))


def run_tasks(prop, tasks, tier, jobs=None, limit=100, deadline=700):
    """every task in its own forked worker with a time and memory budget"""
    jobs = jobs or max(2, min(8, os.cpu_count() or 2))
    t0 = time.time()
    todo = list(tasks)
    live = {}
    out = {}
    while todo or live:
        while todo and len(live) < jobs and time.time() - t0 < deadline:
            task = todo.pop(0)
            lim = task[2] if len(task) > 2 and task[2] else limit
            if tier == 'thorough':
                lim = min(lim * 3, 600)
            lim = max(5, min(lim, deadline - (time.time() - t0)))
            r, wfd = os.pipe()
            sys.stdout.flush()
            sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    os.close(r)
                    try:
                        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
                    except Exception:
                        pass
                    res = run_task(prop, task, tier, lim)
                    data = json.dumps(res, default=str).encode()
                    with os.fdopen(wfd, 'wb') as f:
                        f.write(data)
                except BaseException:
                    code = 3
                    if os.environ.get('SA_DEBUG'):
                        traceback.print_exc()
                finally:
                    os._exit(code)
            os.close(wfd)
            live[r] = [pid, task, time.time(), lim, b'']
        if not live:
            break
        rd, _, _ = select.select(list(live), [], [], 0.5)
        for r in rd:
            d = os.read(r, 1 << 16)
            if d:
                live[r][4] += d
                continue
            pid, task, ts, lim, data = live.pop(r)
            os.close(r)
            os.waitpid(pid, 0)
            try:
                out[task[0]] = json.loads(data.decode())
            except ValueError:
                out[task[0]] = lost(task, 'worker ended without a result', ts)
        for r in list(live):
            pid, task, ts, lim, data = live[r]
            if time.time() - ts > 3 * lim + 20 or time.time() - t0 > deadline + 60:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                os.close(r)
                del live[r]
                out[task[0]] = lost(task, 'time budget of %ds used up (killed)' % lim, ts)
    for task in todo:
        out[task[0]] = lost(task, 'overall time budget used up', time.time())
    return [out[t[0]] for t in tasks if t[0] in out]


def lost(task, why, ts):
    return dict(task=task[0], results=[dict(obligation=task[0] + '/completion', status=UNDECIDED, detail=why)],
                functions=[], imprecision=[], wall_s=round(time.time() - ts, 2))
