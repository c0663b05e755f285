#!/bin/bash
# Nothing to build: the checks import hera_cal from /repo with the interpreter the repository uses.
cd "$(dirname "$0")" || exit 1
export PYTHONDONTWRITEBYTECODE=1 XDG_CONFIG_HOME="$PWD/astropy-config" MPLBACKEND=Agg
exec /opt/venv/bin/python -c "import hypothesis, numpy, sys; sys.path.insert(0, '/repo'); import hera_cal; print('ok', hypothesis.__version__, hera_cal.__file__)"
