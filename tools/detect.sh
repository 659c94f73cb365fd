#!/bin/bash
# Runs the checks of planted bugs against a scratch copy: detect.sh [-t TIER] [-a] [ID ...]
# -a: run every check, not only that of the bug's property. SECS: seconds of monitoring.
tier=quick; all=
while [ "${1:0:1}" = - ]; do case $1 in -t) tier=$2; shift 2;; -a) all=1; shift;; esac; done
base=${DETECT_DIR:-/tmp/detect}
home=$(cd "$(dirname "$0")/.." && pwd)
mkdir -p "$base/verif"
[ -d "$base/repo" ] || cp -a /repo "$base/repo"
git -C "$base/repo" fetch -q /repo HEAD && git -C "$base/repo" reset -q --hard FETCH_HEAD
for f in check.py replay.py harness known-findings.txt; do
  rsync -a --exclude target "$home/$f" "$base/verif/" 2>/dev/null || cp -a "$home/$f" "$base/verif/"
done
sed -i "s#path = \"/repo\"#path = \"$base/repo\"#" "$base/verif/harness/Cargo.toml"
sed -i "s#/repo/src#$base/repo/src#" "$base/verif/check.py"
[ $# = 0 ] && set -- $(ls $home/seeded)
for id; do
  d=$home/seeded/$id
  git -C "$base/repo" checkout -q -- .
  git -C "$base/repo" apply "$d/patch.diff" || { echo "$id: does not apply"; continue; }
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  props=$prop
  [ -n "$all" ] && props=$(python3 -c "import json;print(' '.join(json.loads(l)['id'] for l in open('$home/properties.jsonl')))")
  out=""
  for p in $props; do
    r=$(cd "$base/verif" && MONITOR_SECS=$SECS VERIF_SEED=${VERIF_SEED:-1} timeout 3000 python3 check.py $p $tier 2>&1); rc=$?
    m=$(echo "$r" | grep "^$p: \|NO VERDICT" | head -1 | cut -c1-170)
    out="$out $p=$rc"
    [ -z "$all" ] && out="$out | $m"
  done
  echo "$id [$prop]:$out"
done
git -C "$base/repo" checkout -q -- .
