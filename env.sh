# sourced by setup.sh and run_check.sh
export LANG=C.UTF-8 PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg NUMBA_DISABLE_CUDA=1
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMBA_NUM_THREADS=1
VERIF_DIR="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
DEPS="$VERIF_DIR/.deps"
SYSDEPS=/opt/veriftools/pyvenv/lib/python3.12/site-packages
export PYTHONPATH="${PBT_REPO:-/repo}:$VERIF_DIR:$DEPS"
unset PYTHONSTARTUP NUMBA_DISABLE_JIT

have_deps() { "$PY" -c 'import hypothesis, sortedcontainers' >/dev/null 2>&1; }

ensure_deps() {
  have_deps && return 0
  mkdir -p "$DEPS"
  "$PY" -m pip install -q --no-index --find-links /opt/veriftools/wheels --target "$DEPS" hypothesis \
    >/dev/null 2>&1
  have_deps && return 0
  # no pip in the venv: copy the three pure packages from the tooling venv
  for p in hypothesis sortedcontainers attr attrs; do
    [ -d "$SYSDEPS/$p" ] && cp -r "$SYSDEPS/$p" "$DEPS/"
  done
  cp "$SYSDEPS"/_hypothesis* "$DEPS/" 2>/dev/null
  have_deps && return 0
  echo "cannot provide hypothesis offline" >&2
  return 1
}
