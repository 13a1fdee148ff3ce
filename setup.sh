#!/bin/bash
# Builds the symbolic executor and the native replayer from the committed files.
cd "$(dirname "$0")" || exit 2
. /opt/vp/env.sh
exec python3 tools/check.py --setup
