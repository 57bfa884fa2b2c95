#!/bin/bash
# one.sh PROP HARNESS : run one harness, pretty-print
cd /verif; [ -n "$VERIF_SRC_COPY" ] && export PYTHONPATH=$VERIF_SRC_COPY
export PYTHONDONTWRITEBYTECODE=1 JAX_PLATFORMS=cpu PYTHONHASHSEED=0
/opt/venv/bin/python symx/worker.py "$@" | /opt/venv/bin/python -c "
import sys,json
for l in sys.stdin:
    if not l.startswith('@@'):
        print('  >',l.rstrip()); continue
    r=json.loads(l[2:])
    print('paths',r['paths'],'wall',r['wall_s'],'ops',r['sym_ops'],'terms',r['terms'],r['stats'])
    for o in r['obligations']: print('  ok',o['s'],o['how'],'|',o['label'],o['path'])
    for o in r['undecided']: print('  ??',o['label'],'|',o['why'][:1500]); print(o.get('trace','')[-1800:])
    for v in r['violations']: print('  XX',v['label'],v.get('how'),json.dumps(v['point'])[:700],json.dumps(v.get('outputs',v.get('observed')))[:500])
    for n in sorted(set(r['notes'])): print('  --',n[:300])
    for n in r['errors']: print('  ee',n[-700:])
"
