#!/bin/sh
# Nothing to build: check that the interpreter, Hypothesis and the code under test import.
cd "$(dirname "$0")" || exit 3
. ./harness/env.sh
export PYTHONPATH="$REPO:$(pwd)"
exec /opt/veriftools/pyvenv/bin/python -c "import hypothesis; from harness import sut; print('hypothesis', hypothesis.__version__, 'mcpyrate', sut.mcpyrate.__version__)"
