#!/bin/bash
# check.sh <property> quick|thorough [harness flags]   e.g. ./check.sh C03 quick, ./check.sh C03 quick -units 12
# Builds what the check needs from /repo's working tree, runs it, exits 0 (held), 1 (VIOLATION) or something else (error).
cd "$(dirname "$0")" || exit 3
. ./env.sh
id=$1 tier=${2:-${VERIF_TIER:-quick}}
shift 2 2>/dev/null
mkdir -p build evidence replay
export VERIF_TIER=$tier
code=0
run() { # a violation (1) wins over errors
  "$@"; local c=$?
  if [ $c = 1 ] || [ $code = 0 ]; then code=$c; fi
}
gobuild() { # output, package, flags...
  local out=$1 pkg=$2; shift 2
  (cd mc && go build -o "../build/$out" "$@" "$pkg") || { echo "build of $out failed" >&2; exit 3; }
}
case $id in
C08)
  gobuild core ./cmd/core
  gobuild core-asan ./cmd/core -asan -gcflags=all=-d=checkptr=0
  run ./build/core -check C08 -tier "$tier" "$@"
  [ $code = 1 ] || MC_ASAN=1 run ./build/core-asan -check C08 -tier "$tier" -variant -asan "$@"
  ;;
C09|C15)
  ov=$PWD/build/overlay-$id
  rm -f "evidence/$id.json"
  gobuild instrument ./cmd/instrument
  hooked() { # flags of the instrumentation
    rm -rf "$ov"
    ./build/instrument -repo /repo -out "$ov" -hooks mc/hooksrc "$@" &&
      (cd mc && go build -o ../build/core-hooks -tags hooks -overlay "$ov/overlay.json" ./cmd/core)
  }
  if [ $id = C09 ]; then # one task at a time: no need for the scheduler's sync; last resort: collections in callbacks only
    hooked -shim=false || hooked -points=false || exit 3
    run ./build/core-hooks -check C09 -tier "$tier" "$@"
  else
    if hooked; then
      run ./build/core-hooks -check C15 -tier "$tier" "$@"
    else
      echo "note: /repo could not be instrumented for the controlled scheduler; race detector part only" >&2
    fi
    if [ $code != 1 ]; then
      gobuild core-race ./cmd/core -race -gcflags=all=-d=checkptr=0
      run ./build/core-race -check C15 -tier "$tier" -variant -race "$@"
    fi
  fi
  ;;
C21)
  gobuild core ./cmd/core
  for a in 386:core386 mips64:core-mips64 mips:core-mips; do # a missing binary is reported by the check
    rm -f "build/${a#*:}"
    (cd mc && CGO_ENABLED=0 GOARCH=${a%:*} GOMIPS=softfloat GOMIPS64=softfloat go build -o "../build/${a#*:}" ./cmd/core)
  done
  run ./build/core -check "$id" -tier "$tier" "$@"
  ;;
C0[1-7]|C1[0-4]|C1[6-9]|C2[02-7])
  gobuild core ./cmd/core
  run ./build/core -check "$id" -tier "$tier" "$@"
  ;;
*) echo "unknown property $id" >&2; exit 3 ;;
esac
exit $code
