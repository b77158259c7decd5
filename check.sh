#!/bin/bash
# check.sh PROPERTY [quick|thorough]     run one check
# check.sh replay FILE                   repeat a recorded violation, with its trace
# check.sh build                         build everything
V=$(cd "$(dirname "$0")" && pwd)
cd "$V" || exit 2
export GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOTOOLCHAIN=local
mkdir -p .build
(cd sim && go build -o ../.build/driver.$$ ./cmd/driver) || { echo "ERROR cannot build the driver"; exit 2; }
mv -f .build/driver.$$ .build/driver || exit 2
case "$1" in
build) exec .build/driver -verif "$V" -build ;;
replay) exec .build/driver -verif "$V" -replay "$(realpath "$2")" -prop replay ;;
esac
P=$1; T=${2:-${VERIF_TIER:-quick}}; shift; shift
exec .build/driver -verif "$V" -prop "$P" -tier "$T" -seed "${VERIF_SEED:-1}" "$@"
