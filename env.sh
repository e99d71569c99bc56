# environment of every check: the interpreter of the project, the code of /repo, one thread per worker
export HOME=/root
export PATH=/opt/venv/bin:/usr/local/bin:/usr/bin:/bin:/usr/sbin:/sbin
verif_dir="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export VERIF_DIR="$verif_dir"
export PYTHONPATH="$verif_dir:${VERIF_REPO:-/repo}" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
unset PYTHONPYCACHEPREFIX
export JAX_PLATFORMS=cpu MPLBACKEND=Agg
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMBA_NUM_THREADS=1
export XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1"
export TF_CPP_MIN_LOG_LEVEL=3
