#!/bin/bash
# Builds the checker once (fills the build cache) and checks the reference models.
cd "$(dirname "$0")" || exit 2
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
./build.sh "$tmp/a" || exit 2
./build.sh "$tmp/r" race || exit 2
"$tmp/a/vf" selftest
