#!/bin/bash
# run.sh <property> <tier>: one check, against /repo's working tree.
cd "$(dirname "$0")" || exit 2
export VERIF_TIER="$2"
exec /opt/venv/bin/python -m vmon.run "$1" --tier "$2"
