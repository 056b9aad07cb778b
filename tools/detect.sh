#!/bin/bash
# detect.sh [ID..]: run the check of each planted bug's property on a scratch copy of /repo with the bug in it
V=$(cd "$(dirname "$0")/.." && pwd)
ids=("$@"); [ ${#ids[@]} = 0 ] && ids=($(ls "$V/seeded"))
one() {
  id=$1; d=$V/seeded/$id; t=$(mktemp -d /tmp/detect.XXXXXX); cp -a /repo "$t/repo"
  git -C "$t/repo" apply "$d/patch.diff" || { echo "$id DOES-NOT-APPLY"; rm -rf "$t"; return; }
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  VERIF_REPO=$t/repo VERIF_EVIDENCE=$t/ev timeout 900 python3 "$V/check.py" $p ${TIER:+--tier $TIER} ${SEED:+--seed $SEED} > "$t/out" 2>&1; rc=$?
  echo "$id $p rc=$rc $(grep -c ^VIOLATION "$t/out") violations, $(grep -o 'rejected [0-9]*' "$t/out" | tail -1)"
  [ -n "$SHOW" ] && cut -c1-600 "$t/out" | head -$SHOW
  rm -rf "$t"
}
export -f one; export V
printf '%s\n' "${ids[@]}" | xargs -P ${JOBS:-3} -I{} bash -c 'one {}'
