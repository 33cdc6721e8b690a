#!/bin/bash
# runseeds.sh [ID..]: applies each planted bug to a copy of /repo and runs the check of its property against it.
# (VF_REPO names the tree under test; the registered commands always use /repo.)
V="$(cd "$(dirname "$0")/.." && pwd)"
ids=("$@"); [ ${#ids[@]} -gt 0 ] || ids=($(ls "$V/seeded"))
for i in "${ids[@]}"; do
  w=$(mktemp -d /tmp/rs.XXXXXX)
  cp -a /repo "$w/repo"; git -C "$w/repo" checkout -q -- .
  git -C "$w/repo" apply "$V/seeded/$i/patch.diff" || echo "$i does not apply"
  p=$(python3 -c "import json;print(json.load(open('$V/seeded/$i/meta.json'))['property'])")
  out=$(VF_REPO="$w/repo" VF_NOEVIDENCE=1 "$V/check.sh" "$p" quick 2>&1); rc=$?
  echo "$i $p rc=$rc $(echo "$out" | grep -c '^VIOLATION') $(echo "$out" | grep -m1 -v '^VIOLATION' | cut -c1-150)"
  find "$w" -delete
done
