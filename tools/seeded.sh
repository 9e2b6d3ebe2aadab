#!/bin/bash
# Development only: seeded.sh ID... confirms planted bugs in a scratch copy of /repo and runs the property's check on it.
set -u
here=$(cd "$(dirname "$0")/.." && pwd)
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOPATH=/root/go GOCACHE=/root/.cache/go-build
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
for id in "$@"; do
  d=$here/seeded/$id
  s=$(mktemp -d /tmp/seed.XXXXXX); cp -a /repo/. "$s/"
  prop=$(python3 -c "import json,sys;print(json.load(open('$d/meta.json'))['property'])")
  (cd "$s" && bash "$d/demo.sh" >/tmp/sd/$id.clean 2>&1); c=$?
  (cd "$s" && git apply "$d/patch.diff") || { echo "$id: patch does not apply"; rm -rf "$s"; continue; }
  (cd "$s" && go build ./... >/tmp/sd/$id.build 2>&1 && go test -vet=off -count=1 ./... >/tmp/sd/$id.test 2>&1); t=$?
  (cd "$s" && bash "$d/demo.sh" >/tmp/sd/$id.bad 2>&1); b=$?
  r=skip
  if [ -z "${NOCHECK:-}" ]; then
    mkdir -p /tmp/sd/out.$id
    start=$SECONDS
    VERIF_REPO=$s VERIF_OUT=/tmp/sd/out.$id "$here/check.sh" "${CHECK:-$prop}" >/tmp/sd/$id.check 2>&1; r=$?
    r="$r in $((SECONDS-start))s $(grep -m1 VIOLATION /tmp/sd/$id.check)"
  fi
  echo "$id [$prop]: demo clean=$c patched=$b tests=$t check=$r"
  rm -rf "$s"
done
