#!/bin/bash
# tools/core.sh PROP [tier] [repo]: prepare, build and run the core replay by hand
cd /verif && python3 -c "
import sys; sys.path.insert(0,'lib'); import core_prep
e=core_prep.prepare('/verif','${3:-/repo}','/verif/.build'); print(e) if e else None" 
cd .build/src_core && cargo build --offline 2>&1 | grep -E "^error" -A9 | head -60
[ -n "$1" ] && VERIF_SCRATCH=/tmp/corescr timeout 600 ./target/debug/replay-core $1 ${2:-quick} 1 /tmp/core_$1.json >/dev/null; python3 - <<PY
import json
d=json.load(open('/tmp/core_$1.json')); print('$1',d['evaluations'],d['distinct_nontrivial'],len(d['failures']))
for f in d['failures'][:3]: print('  INPUT',f['input'][:700]); print('  WHAT ',f['what'][:900])
PY
