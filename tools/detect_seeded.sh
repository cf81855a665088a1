#!/bin/bash
# Applies each planted change to /repo, runs the quick check of its property (or, with ALL=1, every check),
# and undoes it. Usage: detect_seeded.sh [ID...]; the table goes to stdout.
cd /verif || exit 2
export VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick}
ids=("$@"); [ ${#ids[@]} = 0 ] && ids=($(ls seeded))
trap 'git -C /repo checkout -q -- .' EXIT
for id in "${ids[@]}"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo checkout -q -- . ; git -C /repo apply "/verif/seeded/$id/patch.diff" || { echo "$id does not apply"; continue; }
  list=$p; [ -n "$ALL" ] && list=$(seq -f "C%02g" 1 27)
  line="$id ($p):"
  for c in $list; do
    t=$(date +%s); out=$(bash sim/check.sh "$c" 2>&1); rc=$?; t=$(( $(date +%s) - t ))
    case $rc in
      0) [ -z "$ALL" ] && line="$line MISSED by $c in ${t}s";;
      1) line="$line $c"; [ -z "$ALL" ] && line="$line in ${t}s: $(echo "$out" | grep -m1 -iE 'run [0-9]+|first' | cut -c1-160)"; echo "$out" | grep -q "VIOLATION property=$c" || line="$line NO-VIOLATION-LINE";;
      *) line="$line $c=exit$rc"; echo "$out" | tail -3;;
    esac
  done
  echo "$line"
  git -C /repo checkout -q -- .
done
