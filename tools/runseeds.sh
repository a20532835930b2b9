#!/bin/bash
# Runs the checks against every planted bug (in a scratch copy of /repo).
# usage: runseeds.sh [id...]
cd /verif/seeded
[ $# -gt 0 ] || set -- $(ls)
for id in "$@"; do
  d=$(mktemp -d /tmp/rs-XXXX)
  cp -a /repo "$d/repo"
  git -C "$d/repo" apply "/verif/seeded/$id/patch.diff" || echo "apply failed"
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  out=$(${SA:-/verif/bin/sa} -prop "$p" -repo "$d/repo" -verif "$d" 2>&1); rc=$?
  if [ $rc = 1 ] && grep -q "^VIOLATION property=$p " <<<"$out"; then echo "caught $id ($p): $(head -1 <<<"$out" | cut -c1-150)"; else echo "MISSED $id ($p) rc=$rc $(tail -1 <<<"$out"|cut -c1-200)"; fi
  rm -rf "$d"
done
