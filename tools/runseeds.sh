#!/bin/bash
# runseeds.sh [id...]: applies each seeded change to a scratch copy of /repo and runs its property's check on it
cd "$(dirname "$0")/.." || exit 2
ids="$*"; [ -z "$ids" ] && ids=$(ls seeded)
for id in $ids; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  wt=$(mktemp -d /tmp/rs.XXXXXX)
  cp -a /repo/. "$wt/" && git -C "$wt" checkout -q -- . && git -C "$wt" apply "$PWD/seeded/$id/patch.diff" || { echo "$id: patch does not apply"; rm -rf "$wt"; continue; }
  bin=/tmp/gosym; [ -n "${GOSYM:-}" ] && bin=$GOSYM
  t0=$(date +%s)
  out=$(VERIF_REPO="$wt" VERIF_DIR="$PWD" timeout 900 "$bin" -property "$p" -nosave 2>&1); rc=$?
  echo "$id $p rc=$rc $(( $(date +%s) - t0 ))s $(echo "$out" | grep -c ^VIOLATION) $(echo "$out" | grep -A1 ^VIOLATION | sed -n 2p)"
  rm -rf "$wt"
done
