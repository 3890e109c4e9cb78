#!/bin/bash
# check.sh <property> [quick|thorough]
cd "$(dirname "$0")"
[ -n "$2" ] && export VERIF_TIER="$2"
exec python3-vt tools/check.py "$1"
