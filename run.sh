#!/bin/bash
# run.sh ID quick|thorough      check one property
# run.sh replay FILE            re-run a reported counterexample on /repo
# run.sh setup                  sanity check of the tools
cd "$(dirname "$(readlink -f "$0")")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 PYTHONPATH=/verif PYTHONUNBUFFERED=1
PY=/opt/venv/bin/python
case "$1" in
  replay) exec $PY -m vz.replay "$2" ;;
  setup) exec $PY -c "from vz import boot; boot.setup(); import z3, numpy; boot.load(); print('ok', z3.get_version_string(), numpy.__version__)" ;;
  *) exec $PY -m vz.main "$@" ;;
esac
