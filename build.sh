#!/bin/bash
# build.sh OUTDIR [race]: builds the checker against /repo's working tree.
# Internals are bound through an overlay; one that does not compile is left out.
set -u
out=$1; race=${2:-}
here=$(cd "$(dirname "$0")" && pwd)
repo=${VERIF_REPO:-/repo}
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off GONOSUMDB='*' GOTELEMETRY=off
unset GOOS GOARCH GOEXPERIMENT 2>/dev/null
mkdir -p "$out"
overlay() { # FILE... -> overlay json
	local first=1 f
	echo '{"Replace":{'
	for f in "$@"; do
		[ $first = 1 ] || echo ','
		first=0
		printf '"%s/%s":"%s"' "$repo" "$(basename "$f")" "$f"
	done
	echo '}}'
}
# the module file is used through a copy, so /verif stays as committed
cp "$here/harness/go.mod" "$out/go.mod"; cp "$here/harness/go.sum" "$out/go.sum"
[ "$repo" = /repo ] || sed -i "s#=> /repo#=> $repo#" "$out/go.mod"
cd "$here/harness" || exit 2
files=("$here"/overlay/*.go)
overlay "${files[@]}" > "$out/overlay.json"
build() { go build -modfile "$out/go.mod" -overlay "$out/overlay.json" -buildvcs=false $flags -o "$out/vf" . ; }
plain=; [ -n "$race" ] && plain="-race -gcflags=all=-d=checkptr=0"
# the guided phase wants the counters and comparisons that go test -fuzz uses; a
# build that does not go with them goes without, and without that phase
flags=$plain; [ -n "$race" ] || flags=-gcflags=github.com/proximax-storage/go-xpx-crypto=-d=libfuzzer
if ! build 2> "$out/build.log"; then
	# bind what can be bound
	ok=("$here/overlay/zz_vx_decl.go")
	for f in "${files[@]}"; do
		[ "$f" = "${ok[0]}" ] && continue
		overlay "${ok[@]}" "$f" > "$out/overlay.json"
		if go build -modfile "$out/go.mod" -overlay "$out/overlay.json" -buildvcs=false github.com/proximax-storage/go-xpx-crypto >> "$out/build.log" 2>&1; then
			ok+=("$f")
		fi
	done
	overlay "${ok[@]}" > "$out/overlay.json"
	build || { flags=$plain; build; } || { cat "$out/build.log" >&2; exit 2; }
fi
