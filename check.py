"""Static checks of rdireen/spherepy: python3 check.py --property C05 [--tier quick|thorough]
[--task NAME] [--replay FILE].  Reads the sources under /repo, never imports or runs them."""
import argparse
import importlib
import json
import os
import re
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


def known_findings(prop):
    out = []
    p = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'finding: property=(\S+) obligation=(.+?) :: (.*)$', line.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--task')
    ap.add_argument('--replay')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    if a.replay:
        r = json.load(open(a.replay))
        a.property, a.task = r['property'], r['obligation'].split('/')[0]
    prop = a.property
    t0 = time.time()
    from sa import harness as H
    from props import REGISTRY
    modname, meta = REGISTRY[prop]
    mod = importlib.import_module('props.' + modname)
    tasks = mod.TASKS[prop]
    if a.task:
        tasks = [t for t in tasks if t[0] == a.task]
    pre = None
    try:
        if meta.get('engine', 'python') == 'python':
            H.world()
    except BaseException as e:       # the sources cannot be analysed at all
        pre = 'package cannot be analysed: %r' % (e,)
    if pre:
        res = [H.lost(t, pre, time.time()) for t in tasks]
    else:
        res = H.run_tasks(prop, tasks, a.tier, deadline=780 if a.tier == 'thorough' else 600)
    obs = [r for t in res for r in t['results']]
    known = known_findings(prop)
    counts = dict(proved=0, violated=0, undecided=0, known=0)
    vio, seen_known = [], []
    for o in obs:
        if o['status'] == 'violated':
            k = [d for pat, d in known if o['obligation'] == pat]
            if k:
                counts['known'] += 1
                seen_known.append((o['obligation'], k[0]))
                continue
            vio.append(o)
        counts[o['status']] += 1
    ev = os.path.join(HERE, 'evidence')
    os.makedirs(os.path.join(ev, 'replay'), exist_ok=True)
    files = dict()
    import hashlib
    for d, _, fs in os.walk(H.ROOT):
        if any(x in d for x in ('/.git', '/build', '/tests', 'egg-info', '/documentation', '/examples', '/appveyor')):
            continue
        for f in fs:
            if f.endswith(('.py', '.c', '.h', '.i', 'pkg_info.json')):
                p = os.path.join(d, f)
                files[os.path.relpath(p, H.ROOT)] = hashlib.sha256(open(p, 'rb').read()).hexdigest()[:16]
    fns = sorted(set(f for t in res for f in t['functions']))
    level = meta['level']
    cov = dict(
        obligations=len(obs), discharged=counts['proved'], undecided=counts['undecided'],
        violated=counts['violated'], known_findings=counts['known'],
        checker_cmd='python3 check.py --property %s --tier %s' % (prop, a.tier),
        trusted_base=meta.get('trusted', TRUSTED),
        explanation=meta['how'],
        rule=meta['rule'],
        functions_analysed=fns, sources=files,
        undecided_obligations=[dict(obligation=o['obligation'], why=o.get('detail', '')[:300]) for o in obs
                               if o['status'] == 'undecided'],
        obligations_detail=[dict(obligation=o['obligation'], status=o['status'], site=o.get('site', ''))
                            for o in obs],
        imprecision=sorted(set(u for t in res for u in t['imprecision']))[:40],
        tasks=[dict(task=t['task'], wall_s=t['wall_s']) for t in res])
    out = dict(property=prop, tier='thorough' if a.tier == 'thorough' else 'quick',
               seed=int(os.environ.get('VERIF_SEED', '1') or 1), level=level, coverage=cov,
               wall_s=round(time.time() - t0, 2), assumptions=meta['assumptions'],
               violations=len(vio))
    cov['violation_list'] = []
    for i, v in enumerate(vio):
        rp = os.path.join(ev, 'replay', '%s-%d.json' % (prop, i + 1))
        with open(rp, 'w') as f:
            json.dump(dict(v, property=prop), f, indent=1, default=str)
        cov['violation_list'].append(dict(id='%s-%d' % (prop, i + 1), description='%s at %s: %s' % (
            v['obligation'], v.get('site', '?'), v.get('detail', '')), replay=rp))
    with open(os.path.join(ev, prop + '.json'), 'w') as f:
        json.dump(out, f, indent=1, default=str)
    if a.v:
        for o in obs:
            print('%-9s %s %s' % (o['status'], o['obligation'], o.get('site', '')))
            if o['status'] != 'proved':
                for k in ('detail', 'got', 'expected', 'condition', 'separation'):
                    if k in o:
                        print('            %s: %s' % (k, o[k]))
        for t in res:
            print('  task %-30s %.1fs %s' % (t['task'], t['wall_s'], t['imprecision'][:3] or ''))
    print('%s: %d obligations, %d proved, %d undecided, %d violated, %d known findings (%.0fs)' % (
        prop, len(obs), counts['proved'], counts['undecided'], counts['violated'], counts['known'],
        time.time() - t0))
    for o, d in sorted(set(seen_known)):
        print('KNOWN-FINDING: property=%s %s' % (prop, d))
    for i, v in enumerate(vio):
        print('  %s at %s: %s' % (v['obligation'], v.get('site', '?'), v.get('detail', '')[:300]))
    for i, v in enumerate(vio):
        print('VIOLATION property=%s replay=%s' % (prop, os.path.join(ev, 'replay', '%s-%d.json' % (prop, i + 1))))
    if obs and counts['undecided'] == len(obs):
        print('%s: nothing could be decided: %s' % (prop, obs[0].get('detail', '')[:300]))
        if all(str(o.get('detail', '')).startswith('analysis:') for o in obs):
            return 2
    return 1 if vio else 0


TRUSTED = ['the abstract interpreter in sa/ (term algebra, facts, loop summaries, numpy and Python models), '
           'CPython\'s ast module; numpy behaves as modelled in sa/npmodel.py']

if __name__ == '__main__':
    sys.exit(main())
