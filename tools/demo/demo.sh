#!/bin/bash
# Runs the test beside this script in a package of its own, laid over /repo.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export REPO=$repo
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GO111MODULE=on GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build}
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
n=0
{
	printf '{"Replace":{'
	for f in "$here"/*.go.txt; do
		b=$(basename "$f" .go.txt)
		[ $n = 0 ] || printf ','
		n=1
		printf '"%s/zzdemo/%s_test.go":"%s"' "$repo" "$b" "$f"
	done
	printf '}}'
} >"$t/overlay.json"
cd "$repo" && go test -c -vet=off -o "$t/demo" -overlay "$t/overlay.json" ./zzdemo || exit 1
cd "$t" && ./demo -test.timeout 250s
