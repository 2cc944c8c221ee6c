#!/bin/bash
# run_check.sh <property id> [--replay FILE]; see README in DESIGN.md
cd "$(dirname "$0")" || exit 2
. ./env.sh
ensure_deps || exit 2
SCRATCH="$(mktemp -d /tmp/pbt.XXXXXX)" || exit 2
trap 'rm -rf -- "$SCRATCH"' EXIT
export MPLCONFIGDIR="$SCRATCH/mpl" PBT_SCRATCH="$SCRATCH" TMPDIR="$SCRATCH"
mkdir -p "$MPLCONFIGDIR"
"$PY" -W ignore -m pbt "$@"
