#!/bin/bash
# runseeds.sh [id...]: runs each planted bug's check on a scratch copy of /repo and says whether it was caught
cd "$(dirname "$0")/.." || exit 3
[ $# = 0 ] && set -- $(ls seeded)
for i in "$@"; do
 p=$(python3 -c "import json;print(json.load(open('seeded/$i/meta.json'))['property'])")
 T=$(mktemp -d /tmp/rs.XXXXXX); cp -a /repo "$T/repo"; mkdir "$T/verif"; cp -a check.sh govc harness specs known-findings.txt properties.jsonl MANIFEST.json tools "$T/verif/" 
 git -C "$T/repo" apply "$PWD/seeded/$i/patch.diff" || echo "$i: does not apply"
 s=$(date +%s); out=$(cd "$T/verif" && VERIF_REPO="$T/repo" VERIF_SEED=1 VERIF_TIER=quick timeout 900 ./check.sh "$p" 2>&1); rc=$?
 echo "$i $p rc=$rc $(( $(date +%s)-s ))s $(grep -m1 VIOLATION <<<"$out" | cut -c1-200)"
 rm -rf "$T"
done
