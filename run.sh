#!/bin/bash
# usage: run.sh PROPERTY [quick|thorough]   (builds against /repo's current tree)
cd "$(dirname "$(readlink -f "$0")")" || exit 2
ROOT=$PWD
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export HOME=${HOME:-/root} GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build}
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off
T=$(mktemp -d /tmp/jxlmc.XXXXXX) || exit 2
trap 'rm -rf "$T"' EXIT
export JXLMC_ROOT=$ROOT JXLMC_TMP=$T
if ! go build -o "$T/jxlmc" ./cmd/jxlmc; then
  echo "build of the harness against /repo failed"
  exit 2
fi
# The checks of schedules and histories run the code on the controlled
# scheduler; where that cannot be built, they use the plain build.
ID=$1
if [ "$ID" = replay ]; then ID=$(sed -n 's/.*"property": "\([A-Z0-9]*\)".*/\1/p' "$2" | head -1); fi
case "$ID" in
C20|C21|C22|C23|C34)
  mkdir "$T/ov"
  if go run ./cmd/instr "$T/ov" >"$T/instr.log" 2>&1 &&
     go build -overlay "$T/ov/overlay.json" -o "$T/jxlmc-ctl" ./cmd/jxlmc >>"$T/instr.log" 2>&1; then
    mv "$T/jxlmc-ctl" "$T/jxlmc"
    if [[ $ID = C21 || $ID = C34 ]] && go build -race -overlay "$T/ov/overlay.json" -o "$T/jxlmc-race" ./cmd/jxlmc >>"$T/instr.log" 2>&1; then
      export JXLMC_RACE=$T/jxlmc-race
    fi
  else
    echo "note: the code could not be put on the controlled scheduler, executions are free-running:"
    tail -3 "$T/instr.log"
    if [[ $ID = C21 || $ID = C34 ]] && go build -race -o "$T/jxlmc-race" ./cmd/jxlmc; then export JXLMC_RACE=$T/jxlmc-race; fi
  fi
  ;;
C35)
  if ! go build -o "$T/jxltopng" github.com/kpfaulkner/jxl-go/tools/jxltopng; then
    echo "build of the converter failed"
    exit 2
  fi
  export JXLMC_TOOL=$T/jxltopng
  ;;
esac
"$T/jxlmc" "$@"
