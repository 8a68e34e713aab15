# environment of every check (sourced)
export PYTHONPATH=/verif:/repo
export MPLBACKEND=Agg MPLCONFIGDIR=/opt/venv/mplconfig
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export PYTHONDONTWRITEBYTECODE=1
# never read stale byte code of /repo
export PYTHONPYCACHEPREFIX=/nonexistent-pycache
export PYTHONHASHSEED=0
PY=/opt/venv/bin/python
