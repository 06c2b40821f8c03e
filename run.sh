#!/bin/sh
# run.sh <property-id> [--replay FILE]: decide one property against /repo's working tree.
cd "$(dirname "$0")" || exit 3
. ./harness/env.sh
export PYTHONPATH="$REPO:$(pwd)"
exec /opt/veriftools/pyvenv/bin/python -m harness.main "$@"
