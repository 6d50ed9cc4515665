#!/bin/bash
# developer helper: tools/vt.sh <contracts module> [harness|PID ...]
. /opt/vp/support/env.sh
cd "$(dirname "$0")/.."; exec /opt/venv/bin/python tools/vt.py "$@"
