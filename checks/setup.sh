#!/bin/bash
# builds the storage/clock seam (also built on demand by every check)
cd "$(dirname "$0")/.." || exit 4
exec /opt/venv/bin/python -c "from sim.engine import build_shim; print(build_shim())"
