#!/bin/bash
# tools/one.sh HARNESS [nsym options]: compiles one harness and runs the executor on it directly
cd "$(dirname "$0")/.." && python3 - "$@" <<'PY'
import sys, os
sys.path.insert(0, '.')
import vp, concurrent.futures as cf, subprocess
d = '/tmp/one'; os.makedirs(d, exist_ok=True)
for f in os.listdir(d): os.unlink(os.path.join(d, f)) if os.path.isfile(os.path.join(d, f)) else None
vp.engine(); b = vp.Build(d, cf.ThreadPoolExecutor(8)); b.start_bc([sys.argv[1]]); bc = b.bitcode(sys.argv[1])
subprocess.run([vp.NSYM, bc, '-o', d + '/out.json', '--wit', d, '--tag', 'one', '--repo', vp.REPO] + sys.argv[2:])
PY
python3 -c "
import json; j=json.load(open('/tmp/one/out.json')); j['functions']=len(j['functions']); j['samples']=len(j['samples']); print(json.dumps(j,indent=1))"
