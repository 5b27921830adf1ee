#!/bin/bash
# tools/seedtest.sh ID...: confirm planted bugs and run their checks on them,
# in scratch copies
for id in "$@"; do (
  d=/verif/seeded/$id; w=$(mktemp -d /tmp/seed.XXXXXX)
  cp -a /repo "$w/repo"; cd "$w/repo" || exit
  export PYTHONDONTWRITEBYTECODE=1
  find . -name __pycache__ -prune -exec rm -rf {} +
  bash "$d/demo.sh" >"$w/d0" 2>&1; a=$?
  git apply "$d/patch.diff" || { echo "$id: PATCH DOES NOT APPLY"; }
  bash "$d/demo.sh" >"$w/d1" 2>&1; b=$?
  t=$(MPLBACKEND=Agg PYTHONPATH=$w/repo /opt/venv/bin/python -m pytest -q -p no:cacheprovider \
      CHECLabPy/core/tests/test_sprectrum_fitter.py CHECLabPy/stats CHECLabPy/core/tests/test_reducer.py CHECLabPy/core/tests/test_chain.py CHECLabPy/spectrum_fitters 2>&1 | tail -1)
  p=$(/opt/venv/bin/python -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  s=$(date +%s)
  if [ -z "$NOCHECK" ]; then
  VERIF_REPO=$w/repo timeout 900 /verif/run.py "$p" --tier quick >"$w/c" 2>&1; c=$?
  fi
  echo "$id: demo $a->$b; tests: $t; check $p exit $c $(grep -c '^VIOLATION' "$w/c") ($(( $(date +%s) - s )) s)"
  [ "$a" = 0 ] || tail -5 "$w/d0"
  [ "$b" != 0 ] || tail -5 "$w/d1"
  [ "$c" = 1 ] || tail -5 "$w/c"
  /usr/bin/find "$w" -depth -delete
); done
