#!/bin/bash
# developer helper: tools/rt.sh <PID> [tier] : run-time contract stage only
cd "$(dirname "$0")/.."; . /opt/vp/support/env.sh
export VERIF_REPO=${VERIF_REPO:-/repo}; export PYTHONPATH=$VERIF_REPO:/opt/vp/support:$PWD
/opt/venv/bin/python -m rt.main $1 /tmp/rt_$1.json ${2:-quick} ${VERIF_SEED:-1} 2>/tmp/rt_$1.err || tail -5 /tmp/rt_$1.err
python3 - <<P
import json; r=json.load(open('/tmp/rt_$1.json')); print('$1', {k:r[k] for k in ('cases','clauses','wall_s','truncated')}, 'viol', [(v['check'],v['contract'],v['message'][:400],v['input'][:500]) for v in r['violations']], 'err', [e[-900:] for e in r['errors']])
P
