#!/usr/bin/env python3
"""tools/plant.py ID...: confirms planted bugs (seeded/ID) in a scratch copy: the patch applies and builds, the stable tests pass
with it, demo.sh exits 0 without it and nonzero with it.  tools/plant.py --make FILE writes seeded/* from a description first."""
import sys, os, subprocess, json, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); S = '/tmp/scr'
def sh(c, cwd=None, **k): return subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, **k)
def scratch():
    if not os.path.exists(S + '/.ok'):
        sh('rm -rf /tmp/scr /tmp/scrvp; cp -a /repo /tmp/scr; cp -a /opt/vp /tmp/scrvp; rm -rf /tmp/scr/_build; sed -i s#/repo#/tmp/scr#g /tmp/scrvp/env.sh /tmp/scrvp/build.sh /tmp/scrvp/test.sh; sed -i s#/opt/vp/env.sh#/tmp/scrvp/env.sh#\\;s#/opt/vp/build.sh#/tmp/scrvp/build.sh# /tmp/scrvp/build.sh /tmp/scrvp/test.sh')
        open(S + '/.ok', 'w').close()
    sh('git checkout -q -f --detach $(git -C /repo rev-parse HEAD) 2>/dev/null || (git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD)', S)
    sh('git checkout -- .', S)
def make(spec):
    ns = {}; exec(open(spec).read(), ns)
    for b in ns['BUGS']:
        scratch(); d = os.path.join(V, 'seeded', b['id']); os.makedirs(d, exist_ok=True)
        for f, old, new in b['edits']:
            p = os.path.join(S, f); s = open(p).read()
            if s.count(old) != b.get('count', {}).get(f, 1): print(b['id'], 'EDIT MATCHES', s.count(old), 'TIMES', f, old[:60]); sys.exit(1)
            open(p, 'w').write(s.replace(old, new))
        open(d + '/patch.diff', 'w').write(sh('git diff', S).stdout); sh('git checkout -- .', S)
        open(d + '/demo.cpp', 'w').write(b['demo'].lstrip('\n'))
        open(d + '/demo.sh', 'w').write(b.get('sh') or '''#!/bin/bash
# run with cwd = the repository
here=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
g++ -std=c++17 -O1 %s-I include -I src "$here/demo.cpp" $(find src -name '*.cpp') -o "$t/demo" -lpthread || exit 2
cd "$t" && timeout 200 ./demo
''' % b.get('flags', ''))
        os.chmod(d + '/demo.sh', 0o755)
        json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['what']), open(d + '/meta.json', 'w'), indent=1)
    return [b['id'] for b in ns['BUGS']]
def confirm(i):
    scratch(); d = os.path.join(V, 'seeded', i)
    r0 = sh('bash %s/demo.sh' % d, S); a = sh('git apply %s/patch.diff' % d, S)
    if a.returncode: return 'DOES NOT APPLY ' + a.stderr[:200]
    r1 = sh('bash %s/demo.sh' % d, S); t = sh('bash /tmp/scrvp/test.sh /tmp/scrout.json', S); sh('git checkout -- .', S)
    try: j = json.load(open('/tmp/scrout.json'))
    except Exception: j = dict(passed=[], failed=['?'])
    base = set(json.load(open('/opt/vp/BASELINE.json'))['stable']); miss = base - set(j['passed'])
    ok = r0.returncode == 0 and r1.returncode not in (0, 2) and not miss
    return '%s demo %d -> %d, tests failing: %s %s' % ('OK' if ok else 'NOT OK', r0.returncode, r1.returncode, sorted(miss), '' if ok else (r0.stdout + r0.stderr + r1.stdout + r1.stderr + t.stdout[-300:] + t.stderr[-300:])[-900:])
a = sys.argv[1:]; ids = make(a[1]) if a[0] == '--make' else a
for i in ids: print(i, confirm(i), flush=True)
