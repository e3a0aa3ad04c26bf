#!/bin/bash
# checks/run.sh PROPERTY [quick|thorough]
cd "$(dirname "$0")/.." || exit 4
exec /opt/venv/bin/python -m sim.engine "$1" --tier "${2:-${VERIF_TIER:-quick}}" "${@:3}"
