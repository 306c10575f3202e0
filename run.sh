#!/bin/bash
# run.sh ID [quick|thorough]   decides property ID on /repo's working tree
# run.sh replay FILE           runs a replay file again
# run.sh setup                 checks that the framework builds
set -u
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off GOENV=off GOFLAGS=-mod=readonly
unset GOMAXPROCS GORACE GODEBUG GOOS GOARCH GOEXPERIMENT GOGC GOMEMLIMIT
cd "$here/harness" || exit 2
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
go build -o "$tmp/vrun" ./cmd/vrun || { echo "error: the driver does not build" >&2; exit 2; }
case "${1:-}" in
setup)
    go vet ./instr ./pbt ./plan ./vsched ./cmd/vrun || exit 2
    go build -o "$tmp/worker" ./cmd/worker || exit 2
    echo "framework builds" ;;
replay)
    f=$2; case "$f" in /*) ;; *) f=$OLDPWD/$f ;; esac
    "$tmp/vrun" replay "$f" ;;
*)
    "$tmp/vrun" check "${1:?property}" "${2:-${VERIF_TIER:-quick}}" ;;
esac
