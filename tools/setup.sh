#!/bin/bash
# Nothing is compiled; make sure the pieces the checks need are present.
cd "$(dirname "$0")/.." && mkdir -p evidence
PY=/opt/venv/bin/python; [ -x "$PY" ] || PY=python3
exec "$PY" -c "import jax, numpy, scipy, h5py; print('setup ok')"
