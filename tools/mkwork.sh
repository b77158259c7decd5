#!/bin/bash
# mkwork.sh SRC WORK: translate SRC and build the worker binary WORK/worker.test
set -e
V=$(cd "$(dirname "$0")/.." && pwd)
SRC=$1; W=$2
export GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GONOSUMDB=* GONOSUMCHECK=1 GOTOOLCHAIN=local
mkdir -p $W
(cd $V/sim && go build -o $W/simgen ./cmd/simgen)
$W/simgen -src $SRC -dst $W/sut -with github.com/gorilla/websocket > $W/modules
rm -rf $W/worker; mkdir -p $W/worker; cp $V/worker/*.go $W/worker/
{ echo "module verif.local/worker"; echo; echo "go 1.26"; echo
  echo "require verif.local/sim v0.0.0"; echo "replace verif.local/sim => $V/sim"
  while read m d; do echo "require $m v0.0.0-00010101000000-000000000000"; echo "replace $m => $d"; done < $W/modules
} > $W/worker/go.mod
cd $W/worker && go test -c -o $W/worker.test .
