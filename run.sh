#!/bin/bash
# run.sh <PID> [quick|thorough]: decides one property on /repo's current tree.
cd "$(dirname "$0")" || exit 2
VERIF_REPO=${VERIF_REPO:-/repo}
. /opt/vp/support/env.sh
export VERIF_REPO PYTHONPATH=$VERIF_REPO:/opt/vp/support
exec /opt/venv/bin/python check.py "$@"
