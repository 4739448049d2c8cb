#!/bin/sh
# Nothing to build: check that the interpreter and the library import from the working tree.
here=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$here/evidence"
cd "$here" && OPENBLAS_CORETYPE=Haswell MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -P -c "
import sys; sys.path.insert(0, '.')
from sim import loader; loader.install()
import instancespace; print('ok', instancespace.__file__)"
