#!/bin/bash
# Runs the program beside this file against the tree in the current directory.
# Exit 0: the property held. Non-zero: it was broken.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off
export GOPATH=/root/go GOCACHE=${GOCACHE:-/root/.cache/go-build}
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
cp "$here/main.go" "$t/main.go"
printf 'module demo\n\ngo 1.24\n\nrequire github.com/protolambda/zssz v0.0.0\n\nreplace github.com/protolambda/zssz => %s\n' "$repo" >"$t/go.mod"
cd "$t" || exit 2
go build -o demo . || exit 2
timeout 60 ./demo
