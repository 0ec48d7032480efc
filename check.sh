#!/bin/bash
# check.sh ID: rebuild from /repo and decide one property.  check.sh replay FILE: run one saved case again.
here=$(cd "$(dirname "$0")" && pwd)
cd "$here" || exit 2
export VERIF_DIR=$here
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
race=
id=$1
[ "$id" = replay ] && id=$(sed -n 's/.*"property": *"\([A-Z0-9]*\)".*/\1/p' "$2" | head -1)
[ "$id" = X03 ] && race=race
./build.sh "$tmp" $race || { echo "build failed" >&2; exit 2; }
case $1 in
replay) "$tmp/vf" replay "$2" ;;
*) "$tmp/vf" check "$id" ;;
esac
rc=$?
exit $rc
