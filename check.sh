#!/bin/bash
# check.sh PROP [quick|thorough]: rebuilds the harness against /repo's working
# tree and runs one property's check.  Nothing is kept between runs.
here=$(cd "$(dirname "$0")" && pwd)
prop=$1
tier=${2:-${VERIF_TIER:-quick}}
seed=${VERIF_SEED:-1}
. /opt/vp/env.sh
tmp=$(mktemp -d /tmp/vh-XXXXXX) || exit 2
trap 'chmod -R u+w "$tmp" 2>/dev/null; rm -rf "$tmp"' EXIT
export VH_TMP=$tmp VH_VERIF=$here
race=
case " $(cat "$here/race.list" 2>/dev/null | tr '\n' ' ') " in *" $prop "*) race=-race ;; esac
cd "$here/harness" || exit 2
mod=
repo=${VH_REPO:-/repo} # development only: another copy of the tree
if [ "$repo" != /repo ]; then
  sed "s#=> /repo#=> $repo#" go.mod >"$tmp/go.mod"; cp go.sum "$tmp/go.sum" 2>/dev/null
  mod=-modfile=$tmp/go.mod
fi
export VH_REPO=$repo
go build $race $mod -o "$tmp/vh" . || { echo "harness build failed" >&2; exit 2; }
if grep -qx "$prop" "$here/avtool.list" 2>/dev/null; then
  (cd "$repo" && go build $race -o "$tmp/avtool" ./cmd/avtool) || { echo "avtool build failed" >&2; exit 2; }
  export VH_AVTOOL=$tmp/avtool
fi
cd "$here" || exit 2
"$tmp/vh" run "$prop" "$tier" "$seed" "${VH_OUT:-$here}"
