"""Makes and confirms planted bugs (development tool; no check uses it).
usage: seed.py SPEC.py...   SPEC defines PROP, EDITS [(file, old, new)], NEEDS, BREAKS, DEMO (python source)"""
import json
import os
import subprocess
import sys

V = '/verif'


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def clean():
    sh('git -C /repo checkout -- . && bash /opt/vp/build.sh')


def demo(d):
    r = sh(f'timeout 300 bash {d}/demo.sh', cwd='/repo')
    return r.returncode, (r.stdout + r.stderr)[-400:]


base = None
b = json.load(open('/opt/vp/BASELINE.json'))
for k in b:
    if isinstance(b[k], list) and len(b[k]) >= 100:
        base = set(b[k])
assert not sh('git -C /repo status --porcelain -uno').stdout.strip(), 'repo not clean'
out = {}
for spec in sys.argv[1:]:
    sid = os.path.basename(spec)[:-3]
    ns = {}
    exec(open(spec).read(), ns)
    d = f'{V}/seeded/{sid}'
    os.makedirs(d, exist_ok=True)
    open(f'{d}/demo.py', 'w').write(ns['DEMO'].lstrip())
    open(f'{d}/demo.sh', 'w').write('''#!/bin/bash
# run with cwd = the repository after its build
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg LANG=C.UTF-8
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
exec "$PY" "$here/demo.py"
''')
    json.dump({'property': ns['PROP'], 'needs': ns['NEEDS'], 'what_it_breaks': ns['BREAKS']},
              open(f'{d}/meta.json', 'w'), indent=1)
    ok = True
    for f, old, new in ns['EDITS']:
        p = '/repo/' + f
        s = open(p).read()
        if s.count(old) != 1:
            print(sid, 'EDIT does not match once:', f, s.count(old), repr(old[:60]))
            ok = False
            break
        open(p, 'w').write(s.replace(old, new))
    if not ok:
        clean()
        continue
    diff = sh('git -C /repo diff').stdout
    sh('git -C /repo checkout -- .')
    open(f'{d}/patch.diff', 'w').write(diff)
    clean()
    rc0, o0 = demo(d)
    sh(f'git -C /repo apply {d}/patch.diff')
    t = sh('bash /opt/vp/test.sh /tmp/seed_out.json')
    o = json.load(open('/tmp/seed_out.json'))
    passed = set(o.get('passed', []))
    miss = base - passed
    rc1, o1 = demo(d)
    props = ns.get('CHECKS', [ns['PROP']])
    res = {}
    for p in props:
        r = sh(f'{V}/bin/check {p}', env=dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick'))
        res[p] = (r.returncode, [x[:160] for x in r.stdout.splitlines() if x.startswith('  ') or 'ERROR' in x][:2])
    clean()
    good = rc0 == 0 and rc1 != 0 and not miss
    print(f"{sid}: {'VALID' if good else 'INVALID'} demo clean={rc0} bug={rc1} missing={sorted(miss)[:3]}")
    if rc0:
        print('   clean demo:', o0)
    if not good and rc1:
        print('   bug demo:', o1)
    for p, (rc, ls) in res.items():
        print(f"   {p}: {'CAUGHT' if rc == 1 else 'MISSED' if rc == 0 else 'ERROR'} {ls}")
    sys.stdout.flush()
