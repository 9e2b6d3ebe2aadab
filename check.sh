#!/bin/bash
# check.sh ID            decides one property on /repo's working tree (tier: VERIF_TIER, seed: VERIF_SEED)
# check.sh --replay FILE repeats a recorded failure
# check.sh --build       only builds the simulator (warms the build cache)
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=${VERIF_REPO:-/repo}
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off
export GOPATH=/root/go GOCACHE=${VERIF_GOCACHE:-/root/.cache/go-build}
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
unset GODEBUG GOGC GOMAXPROCS GOMEMLIMIT GOTRACEBACK GOEXPERIMENT
if ! mkdir -p "$GOCACHE" 2>/dev/null || ! [ -w "$GOCACHE" ]; then export GOCACHE=$here/build/cache; fi
mkdir -p "$here/build" || exit 2
b=$(mktemp -d "$here/build/b.XXXXXX") || exit 2
[ -n "${KEEP:-}" ] || trap 'rm -rf "$b"' EXIT
log=$b/build.log
cd "$here/sim" || exit 2

build() { # build TAGS OVERLAY
  go build -tags "$1" ${2:+-overlay "$2"} -o "$b/zsim" ./cmd/zsim >"$log" 2>&1 || return 1
  echo "$1" >"$b/tags"; echo -n "$2" >"$b/ov"
}

# a second build for C07: the race detector instruments the library, not the simulator
race_build() {
  [ -s "$b/tags" ] || return 0
  local t o=
  t=$(cat "$b/tags"); [ -s "$b/ov" ] && o="-overlay $b/overlay.json"
  CGO_ENABLED=1 go build -race '-gcflags=verif.local/sim/...=-race=false -l' '-gcflags=github.com/protolambda/zssz/...=-d=checkptr=0' \
    -tags "$t" $o -o "$b/zsim-race" ./cmd/zsim >"$log" 2>&1 && return 0
  rm -f "$b/zsim-race"
  echo "check.sh: note: no build with the race detector" >&2
}

# a build for hosts with words of 32 bits, which this machine executes as well
narrow_build() {
  [ -s "$b/tags" ] || return 0
  local t o=
  t=$(cat "$b/tags"); [ -s "$b/ov" ] && o="-overlay $b/overlay.json"
  GOARCH=386 CGO_ENABLED=0 go build -tags "$t" $o -o "$b/zsim-386" ./cmd/zsim >"$log" 2>&1 && return 0
  rm -f "$b/zsim-386"
  echo "check.sh: note: no build for words of 32 bits" >&2
}

prepare() {
  # the module refers to /repo; another tree is only used during development
  if [ "$repo" != /repo ]; then
    cp go.mod "$b/go.mod"; : >"$b/go.sum"
    sed -i "s#=> /repo\$#=> $repo#" "$b/go.mod"
    export GOFLAGS="-mod=mod -modfile=$b/go.mod"
  fi
  go build -o "$b/instr" ./cmd/instr >"$log" 2>&1 || { cat "$log" >&2; echo "check.sh: the instrumenter does not build" >&2; exit 2; }
  "$b/instr" "$repo" "$b" || exit 2
  local t=
  grep -q '^endian=true' "$b/flags.txt" && t=endian
  build "$t,custom" "$b/overlay.json" && return 0
  cp "$log" "$b/first.log"
  build "$t" "$b/overlay.json" && { echo "check.sh: note: built without the custom component world" >&2; return 0; }
  sed -i 's/^coarse=.*/coarse=true/' "$b/flags.txt"
  build "$t,custom" "" && { echo "check.sh: note: built without statement-level scheduling" >&2; return 0; }
  build "$t" "" && { echo "check.sh: note: built without statement-level scheduling and without the custom component world" >&2; return 0; }
  build "custom" "" && { sed -i '/^endian=/d' "$b/flags.txt"; echo "check.sh: note: built without statement-level scheduling and endianness switch" >&2; return 0; }
  cat "$b/first.log" >&2
  echo "check.sh: the simulator does not build against $repo" >&2
  exit 2
}

case "${1:-}" in
  --build) prepare; echo "simulator built"; exit 0 ;;
  --replay)
    f=$(cd "$OLDPWD" && realpath "${2:?file}") || exit 2
    prepare; grep -q '"race": true' "$f" && race_build
    grep -q '"narrow": true' "$f" && narrow_build
    "$b/zsim" replay "$f"; exit $? ;;
  "") echo "usage: check.sh ID | --replay FILE | --build" >&2; exit 2 ;;
esac
id=$1; shift
prepare
[ "$id" = C07 ] && race_build
# C22 needs gigabytes of address space
[ "${VERIF_TIER:-quick}" = thorough ] && [ "$id" != C22 ] && narrow_build
"$b/zsim" check -prop "$id" -tier "${VERIF_TIER:-quick}" -verif "${VERIF_OUT:-$here}" "$@"
rc=$?
case $rc in 0|1) exit $rc ;; *) exit 2 ;; esac
