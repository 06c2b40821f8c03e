# Sourced by run.sh: the environment every check runs in.
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 PYTHONUNBUFFERED=1
export HOME="${HOME:-/root}" LANG=C.UTF-8 LC_ALL=C.UTF-8
unset PYTHONHOME PYTHONPYCACHEPREFIX PYTHONSTARTUP PYTHONWARNINGS PYTHONOPTIMIZE PYTHONPATH
REPO="${VERIF_REPO:-/repo}"
export VERIF_REPO="$REPO"
export PYTHONPATH="$REPO:/verif:/opt/venv/lib/python3.12/site-packages"
