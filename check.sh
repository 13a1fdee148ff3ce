#!/bin/bash
# check.sh <property id>: decides one property for the code in /repo. VERIF_TIER picks the bounds.
cd "$(dirname "$0")" || exit 2
. /opt/vp/env.sh
exec python3 tools/check.py "$@"
