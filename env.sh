export PATH=/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg TZ=UTC LC_ALL=C.UTF-8
export MPLCONFIGDIR=/opt/venv/mplconfig PYTHONPATH=/repo/src
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
