#!/usr/bin/env python3
"""tools/catch.py [-c Cxx[,Cyy]] [ID...]: runs the property's check (or those given) against a scratch copy of /repo with each planted bug applied."""
import sys, os, subprocess, json, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); a = sys.argv[1:]; only = None
if a[:1] == ['-c']: only = a[1].split(','); a = a[2:]
ids = a or sorted(os.listdir(V + '/seeded'))
for i in ids:
    d = tempfile.mkdtemp(prefix='catch'); subprocess.run('cd /repo && git archive HEAD | tar x -C %s && cd %s && git init -q && git apply %s/seeded/%s/patch.diff' % (d, d, V, i), shell=True, check=True)
    for c in only or [json.load(open('%s/seeded/%s/meta.json' % (V, i)))['property']]:
        t = time.time(); r = subprocess.run(['python3', V + '/vp.py', 'check', c, 'quick'], env=dict(os.environ, VP_REPO=d, VP_EVID='/tmp/evid'), capture_output=True, text=True)
        l = [x for x in r.stdout.splitlines() if x.startswith(('VIOLATION', 'UNCONF', 'INCOMP', 'ERROR'))]
        print('%s %s %s exit %d %.0f s %s' % (i, c, 'CAUGHT' if r.returncode == 1 and any(x.startswith('VIOLATION property=' + c) for x in l) else 'missed', r.returncode, time.time() - t, ' | '.join(x[:230] for x in l[:3])), flush=True)
    subprocess.run(['rm', '-rf', d])
