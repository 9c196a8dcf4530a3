# Common environment of all commands (sourced).
here="$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)"
cd "$here"
if [ ! -e build/shim.so ] || [ sim/shim.c -nt build/shim.so ]; then ./setup.sh || exit 2; fi
# SIM_TREE: another copy of the tree, used only to try planted bugs during development
export SIM_TREE="${SIM_TREE:-/repo}"
export PYTHONPATH="$SIM_TREE":"$here" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED="${PYTHONHASHSEED:-0}"
export CUDA_VISIBLE_DEVICES= MPLBACKEND=Agg OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
PY=/opt/venv/bin/python
[ -x $PY ] || PY=python3
export LD_PRELOAD="$here/build/shim.so"
