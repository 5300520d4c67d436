#!/bin/bash
# runs the demonstration beside this file (an in-package test laid over the current directory's tree)
here=$(cd "$(dirname "$0")" && pwd)
root=$(pwd)
export HOME=${HOME:-/root} PATH=/opt/veriftools/go1.23.12/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOTOOLCHAIN=local GOWORK=off GO111MODULE=on GOPROXY=off GOFLAGS=-mod=mod
pkg=$(sed -n 's,^// pkg: ,,p' "$here/demo_test.go.txt" | head -1)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
cp "$here/demo_test.go.txt" "$tmp/zz_demo_test.go"
printf '{"Replace": {"%s/%s/zz_demo_test.go": "%s/zz_demo_test.go"}}\n' "$root" "$pkg" "$tmp" > "$tmp/overlay.json"
go test -overlay "$tmp/overlay.json" -vet=off -count=1 -run '^TestDemo' -timeout 200s "./$pkg"
