#!/bin/bash
# plant.sh ID [notests]: verifies /verif/seeded/ID in a scratch copy of /repo (development only)
id=$1; src=/verif/seeded/$id; work=/tmp/plant/$id
prop=$(python3 -c "import json,sys; print(json.load(open('$src/meta.json'))['property'])")
rm -rf "$work"; mkdir -p "$work"; cp -a /repo "$work/repo"; mkdir "$work/demo"; cp "$src"/* "$work/demo/"; rm -f "$work"/demo/*.diff "$work"/demo/meta.json
export LANG=C.UTF-8 PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg MPLCONFIGDIR=$work/mpl NUMBA_DISABLE_CUDA=1
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 NUMBA_NUM_THREADS=1
cd "$work/repo" || exit 1
timeout 300 bash "$work/demo/demo.sh" >"$work/demo0.log" 2>&1; d0=$?
git apply "$src/patch.diff" || { echo "$id: patch does not apply"; exit 1; }
timeout 300 bash "$work/demo/demo.sh" >"$work/demo1.log" 2>&1; d1=$?
t="skipped"
if [ "$2" != notests ]; then
  p=(env PYTHONPATH=$work/repo timeout 840 /opt/venv/bin/python -m pytest -q -p no:cacheprovider -p no:unraisableexception -W ignore --tb=short --timeout=600 --continue-on-collection-errors -o junit_family=xunit2)
  "${p[@]}" -p no:xdist --junitxml="$work/r/smoke.xml" tests/test_conmech/smoke >"$work/smoke.log" 2>&1 &
  "${p[@]}" -n 5 --junitxml="$work/r/rest.xml" --ignore=tests/test_conmech/smoke tests >"$work/rest.log" 2>&1
  wait
  python3 /opt/vp/results.py "$work/t.json" "junit:$work/r/*.xml" >/dev/null 2>&1
  t=$(python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; r=json.load(open('$work/t.json'))
p=set(r.get('passed',[])); print('failed', [x for x in b if x not in p])")
fi
start=$(date +%s)
if [ "$2" != nocheck ]; then PBT_REPO=$work/repo VERIF_SEED=1 VERIF_TIER=quick bash /verif/run_check.sh $prop >"$work/check.log" 2>&1; c=$?; fi
echo "$id [$prop]: demo clean=$d0 patched=$d1 tests=$t check=$c ($(( $(date +%s)-start ))s) $(grep -v VIOL $work/check.log | tail -1 | cut -c1-200)"
rm -rf -- "/tmp/plant/$id/repo"
