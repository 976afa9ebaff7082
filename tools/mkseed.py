"""Makes /verif/seeded/<id> from an edit spec and confirms it in a scratch copy:
python3 tools/mkseed.py specfile.py    (spec: ID, PROP, EDITS=[(file, old, new)], DEMO, NEEDS, BREAKS)"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

WT = '/tmp/seedwt'


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def main(spec):
    g = {}
    exec(open(spec).read(), g)
    ID = g['ID']
    d = '/verif/seeded/' + ID
    os.makedirs(d, exist_ok=True)
    demo = g['DEMO']
    with open(d + '/demo.sh', 'w') as f:
        f.write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg\nexport PYTHONPATH=$PWD\n'
                'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n' if not g.get('SH') else g['SH'])
    with open(d + '/demo.py', 'w') as f:
        f.write(demo)
    os.chmod(d + '/demo.sh', 0o755)
    json.dump(dict(property=g['PROP'], needs=g['NEEDS'], what_it_breaks=g['BREAKS']), open(d + '/meta.json', 'w'), indent=1)
    if sh('git -C /repo status --porcelain').stdout.strip():
        sys.exit('/repo not clean')
    try:
        for f, old, new in g['EDITS']:
            p = '/repo/' + f
            s = open(p, newline='').read()
            if '\r\n' in s:
                old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
            if s.count(old) != 1:
                sys.exit('%s: %d occurrences of %r' % (f, s.count(old), old[:80]))
            open(p, 'w', newline='').write(s.replace(old, new))
        r = subprocess.run('git -C /repo diff --binary', shell=True, stdout=subprocess.PIPE)
        open(d + '/patch.diff', 'wb').write(r.stdout)
    finally:
        sh('git -C /repo checkout -- .')
    # demo on the unchanged tree
    sh('bash /opt/vp/build.sh')
    r0 = sh('timeout 300 bash %s/demo.sh' % d, cwd='/repo')
    rr = sh('git apply %s/patch.diff' % d, cwd='/repo')
    try:
        b = sh('bash /opt/vp/build.sh')
        t = sh('bash /opt/vp/test.sh /tmp/seed.json')
        r1 = sh('timeout 300 bash %s/demo.sh' % d, cwd='/repo')
        chk = sh('python3 check.py --property %s' % g['PROP'], cwd='/verif')
    finally:
        sh('git -C /repo checkout -- .')
        sh('bash /opt/vp/build.sh')
    print('%s: apply %d build %d tests %s | demo clean %d patched %d | check %s exit %d' % (
        ID, rr.returncode, b.returncode, t.stdout.strip().splitlines()[-1:], r0.returncode, r1.returncode,
        g['PROP'], chk.returncode))
    if r0.returncode or not r1.returncode:
        print(r0.stdout[-600:], r1.stdout[-600:])
    if b.returncode:
        print(b.stdout[-500:])
    print('  ' + '\n  '.join(chk.stdout.strip().splitlines()[-4:])[:900])


for s in sys.argv[1:]:
    main(s)
