export HOME=${HOME:-/root} LANG=C.UTF-8 PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=${PYTHONHASHSEED:-0}
export MPLBACKEND=Agg
[ -w "${MPLCONFIGDIR:-/opt/venv/mpl}" ] || export MPLCONFIGDIR=/tmp
export MPLCONFIGDIR=${MPLCONFIGDIR:-/opt/venv/mpl}
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 NUMEXPR_NUM_THREADS=1 NUMEXPR_MAX_THREADS=2
export NPY_DISABLE_CPU_FEATURES="AVX512F AVX512CD AVX512_SKX AVX512_CLX AVX512_CNL AVX512_ICL"
export OPENBLAS_CORETYPE=Haswell
PY=/opt/venv/bin/python
