#!/bin/bash
# check.sh <property> <quick|thorough>
cd "$(dirname "$0")" || exit 3
p="$1"; t="${2:-${VERIF_TIER:-quick}}"; shift; shift
exec /opt/venv/bin/python check.py "$p" --tier "$t" "$@"
