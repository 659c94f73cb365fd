#!/bin/bash
# Runs checks against a changed copy of the repository that behaves the same: quiet.sh COPY [ID ...]
# They have to stay quiet. SECS: seconds of monitoring; VERIF_SEED as for the checks.
copy=$(realpath "$1"); shift
home=$(cd "$(dirname "$0")/.." && pwd)
base=${QUIET_DIR:-/tmp/quiet}
mkdir -p "$base"
for f in check.py replay.py harness known-findings.txt; do rsync -a --exclude target "$home/$f" "$base/" 2>/dev/null || cp -a "$home/$f" "$base/"; done
sed -i "s#path = \"/repo\"#path = \"$copy\"#" "$base/harness/Cargo.toml"
sed -i "s#/repo/src#$copy/src#" "$base/check.py"
[ $# = 0 ] && set -- $(python3 -c "import json;print(' '.join(json.loads(l)['id'] for l in open('$home/properties.jsonl')))")
for id; do
  r=$(cd "$base" && MONITOR_SECS=$SECS VERIF_SEED=${VERIF_SEED:-1} timeout 3000 python3 check.py $id ${TIER:-quick} 2>&1); rc=$?
  echo "$id=$rc $(echo "$r" | grep "^$id: \|NO VERDICT" | head -1 | cut -c1-200)"
done
