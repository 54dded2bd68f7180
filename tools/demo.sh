#!/bin/bash
# exit 0: the behaviour is as promised; 1: it is not
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
d=$(mktemp -d) || exit 3
trap 'rm -rf "$d"' EXIT
cp "$here"/*.go "$d"/
for f in go.mod go.sum; do [ -f "$repo/$f" ] && cp "$repo/$f" "$d/$f" || cp "/opt/vp/mod/$f" "$d/$f"; done
sed -i 's/^module .*/module demo/' "$d/go.mod"
printf '\nrequire github.com/lestrrat-go/jsval v0.0.0\nreplace github.com/lestrrat-go/jsval => %s\n' "$repo" >> "$d/go.mod"
cd "$d"
export HOME=${HOME:-/root} GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local TZ=UTC
export DEMO_REPO="$repo" DEMO_DIR="$d"
go build RACEFLAG -o demo . || exit 3
timeout 200 ./demo
rc=$?
[ $rc -eq 0 ] && exit 0
exit 1
