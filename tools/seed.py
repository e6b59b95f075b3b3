"""Author-side helper: build one planted change in a scratch copy, confirm it and store it under seeded/.
usage: seed.py SPEC.py   (SPEC defines ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO)
       seed.py --check ID [PROP...]   apply to /repo, run the checks, undo"""
import json, os, shutil, subprocess, sys
V = '/verif'
SH = '#!/bin/bash\nPYTHONPATH="$PWD/src" exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'


def sh(c, **k):
    return subprocess.run(c, shell=True, text=True, capture_output=True, **k)


def stable(repo):
    # /opt/vp/test.sh tests /repo: run there with the change applied
    out = '/tmp/seed_out.json'
    sh('bash /opt/vp/test.sh %s' % out)
    base = json.load(open('/opt/vp/BASELINE.json'))['stable']
    o = json.load(open(out))
    passed = set(o['passed'])
    return [t for t in base if t not in passed]


def make(spec):
    ns = {}
    exec(open(spec).read(), ns)
    d = os.path.join(V, 'seeded', ns['ID'])
    assert sh('git -C /repo status --porcelain').stdout == ''
    os.makedirs(d, exist_ok=True)
    open(d + '/demo.sh', 'w').write(SH)
    os.chmod(d + '/demo.sh', 0o755)
    open(d + '/demo.py', 'w').write(ns['DEMO'])
    json.dump(dict(property=ns['PROPERTY'], needs=ns['NEEDS'], what_it_breaks=ns['BREAKS']), open(d + '/meta.json', 'w'), indent=1)
    ok = True
    try:
        r = sh('bash %s/demo.sh' % d, cwd='/repo')
        if r.returncode:
            print('demo fails on unchanged tree', r.stdout[-1500:], r.stderr[-1500:]); ok = False
        for f, old, new in ns['EDITS']:
            p = '/repo/' + f
            s = open(p).read()
            assert s.count(old) == 1, (f, s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        open(d + '/patch.diff', 'w').write(sh('git -C /repo diff').stdout)
        r = sh('bash %s/demo.sh' % d, cwd='/repo')
        if not r.returncode:
            print('demo passes with the change', r.stdout[-1500:]); ok = False
        else:
            print('demo with change:', (r.stdout + r.stderr).strip().splitlines()[-1:])
        m = stable('/repo')
        if m:
            print('tests break:', m); ok = False
    finally:
        sh('git -C /repo checkout -- .')
    print(ns['ID'], 'OK' if ok else 'REJECTED')
    if not ok:
        shutil.rmtree(d)
    return ns


def check(id, props):
    d = os.path.join(V, 'seeded', id)
    props = props or [json.load(open(d + '/meta.json'))['property']]
    try:
        r = sh('git -C /repo apply %s/patch.diff' % d)
        assert r.returncode == 0, r.stderr
        for p in props:
            r = sh('/opt/venv/bin/python run.py check %s quick' % p, cwd=V)
            v = [l for l in r.stdout.splitlines() if 'VIOLATION' in l or l.startswith('  case')]
            print(id, p, 'exit', r.returncode, 'CAUGHT' if r.returncode == 1 else 'MISSED', '; '.join(v)[:300])
            if r.returncode != 1:
                print(r.stdout[-600:], r.stderr[-900:])
    finally:
        sh('git -C /repo checkout -- .')


if sys.argv[1] == '--check':
    check(sys.argv[2], sys.argv[3:])
else:
    for s in sys.argv[1:]:
        ns = make(s)
        if os.path.exists(os.path.join(V, 'seeded', ns['ID'])):
            check(ns['ID'], [])
