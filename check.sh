#!/bin/bash
# usage: check.sh PROP [quick|thorough]
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 VERIF_TIER="${2:-${VERIF_TIER:-quick}}"
unset PYTHONPATH
[ "$1" = "--selftest" ] && exec python3-vt -m sym.selftest
exec python3-vt -m sym.runner "$1" --tier "$VERIF_TIER" "${@:3}"
