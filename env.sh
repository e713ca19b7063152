# Sourced by every entry point: the interpreter and environment of the checks.
VERIF_ROOT="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
REPO_ROOT="${REPO_ROOT:-/repo}"
export VERIF_ROOT REPO_ROOT
export PYTHONPATH="$REPO_ROOT:$VERIF_ROOT" PYTHONHASHSEED="${PYTHONHASHSEED:-0}"
export PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore
export JAX_PLATFORMS=cpu NO_GCE_CHECK=true
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMEXPR_NUM_THREADS=1
PY=/opt/venv/bin/python
