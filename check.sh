#!/bin/bash
# usage: check.sh <property> [quick|thorough]      decide one property against /repo's working tree
#        check.sh replay <violation.json>          re-run a reported violation against the real code
set -u
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export VERIF_DIR=$here
work=$(mktemp -d /tmp/gosym.XXXXXX) || exit 2
trap 'rm -rf "$work"' EXIT
export TMPDIR=$work
case "$1" in
  replay) grep -q '"engine": "kani"' "$2" && { TMPDIR=$work python3 "$here/rust/check.py" replay "$2"; exit $?; } ;;
esac
if grep -qs "^pub fn $(echo "$1" | tr C c)[tb]\?_" "$here"/rust/harness/*.rs; then
  TMPDIR=$work python3 "$here/rust/check.py" "$1" "${2:-quick}"; exit $?
fi
want=$("$here/tools/enginesum.sh")
if [ -f "$here/bin/gosym.gz" ] && [ "$(cat "$here/bin/gosym.sum" 2>/dev/null)" = "$want" ] && gunzip -c "$here/bin/gosym.gz" > "$work/gosym" 2>/dev/null; then
  chmod +x "$work/gosym"
else
  (cd "$here/engine" && GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=vendor GOWORK=off CGO_ENABLED=0 go build -trimpath -ldflags "-s -w" -o "$work/gosym" .) || { echo "cannot build the engine" >&2; exit 2; }
fi
if [ "$1" = replay ]; then
  "$work/gosym" -replay "$2"; exit $?
fi
tier=${2:-quick}
"$work/gosym" -property "$1" -tier "$tier"
