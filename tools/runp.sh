#!/bin/bash
# runp.sh ID...: run checks with the development binary and summarise (clipped)
for p in "$@"; do s=$(date +%s.%N); timeout 900 /tmp/zz -prop $p -data /verif/harness/data $ARGS > /tmp/out.$p.json 2>/tmp/err.$p; echo "$p rc $? $(echo "$(date +%s.%N)-$s" | bc | cut -c1-6)s"; python3 - <<P
import json
try: d=json.load(open('/tmp/out.$p.json'))
except Exception as e: print(e); print(open('/tmp/err.$p').read()[:600]); raise SystemExit
if '$V': print(str({k:d[k] for k in ('evaluations','distinct_nontrivial','counters','inconclusive')})[:600])
for v in (d['violations'] or [])[:${NV:-1}]:
    print('  ',v['kind'],v['case'])
    for k,x in v['detail'].items(): print('      ',k,':',str(x)[:${W:-300}])
P
done
