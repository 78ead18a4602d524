#!/bin/bash
# Nothing to build: verifies that the interpreter, the library and the generator are usable.
cd "$(dirname "$(readlink -f "$0")")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYVISTA_OFF_SCREEN=true
exec /opt/venv/bin/python -W ignore -c "from nnv import common; common.import_hypothesis(); nn = common.import_nannos(); print('nannos', nn.__version__)"
