#!/bin/bash
# tools/nat.sh HARNESS WITNESS [plain|asan|tsan|valgrind]: runs one witness against the natively compiled code
cd "$(dirname "$0")/.." && python3 - "$@" <<'PY'
import sys, os
sys.path.insert(0, '.')
import vp, concurrent.futures as cf
d = '/tmp/onenat'; os.makedirs(d, exist_ok=True)
v = sys.argv[3] if len(sys.argv) > 3 else 'plain'
b = vp.Build(d, cf.ThreadPoolExecutor(8)); e = os.path.join(d, "%s_%s.exe" % ('plain' if v == 'valgrind' else v, sys.argv[1]))
if os.path.exists(e): os.unlink(e)
for r in vp.run_native(b.native(sys.argv[1], 'plain' if v == 'valgrind' else v), sys.argv[2], 60, v == 'valgrind'): print(r)
PY
