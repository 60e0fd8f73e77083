#!/bin/bash
# check.sh ID [quick|thorough]   run the check of one property against /repo's working tree
# check.sh replay FILE           replay a recorded violation
# check.sh warm                  build only
# Exit 0: held on everything explored; 1: violation (with a VIOLATION line); 2: the check itself could not run.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
export VERIF_DIR="${VERIF_DIR:-$here}"
repo="${VERIF_REPO:-/repo}"
work=$(mktemp -d "${TMPDIR:-/tmp}/vsimbuild.XXXXXX") || exit 2
trap 'rm -rf "$work"' EXIT
build() {
  set -e
  mkdir "$work/rewrite" "$work/harness"
  cp "$here"/sim/rewrite/*.go "$here"/sim/rewrite/go.mod "$work/rewrite/"
  cp -r "$here/sim/rt" "$work/rt"
  cp "$here"/sim/harness/*.go "$work/harness/"
  (cd "$work/rewrite" && go build -o "$work/rewriter" .)
  "$work/rewriter" -src "$repo" -out "$work/emberlib" -sites "$work/harness/sites_gen.go"
  cat > "$work/harness/go.mod" <<M
module harness

go 1.23

require (
	github.com/dufourgilles/emberlib v0.0.0
	simrt v0.0.0
)
replace github.com/dufourgilles/emberlib => ../emberlib
replace simrt => ../rt
M
  (cd "$work/harness" && go build -o "$work/h" .)
}
if ! (build) >"$work/log" 2>&1; then
  echo "check error: cannot build the simulation of $repo" >&2
  tail -40 "$work/log" >&2
  exit 2
fi
case "$1" in
  warm) exit 0 ;;
  replay) "$work/h" replay "$2" ;;
  *) "$work/h" drive "$1" "${2:-quick}" ;;
esac
