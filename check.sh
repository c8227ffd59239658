#!/bin/bash
# check.sh PID [quick|thorough] [engine flags]: builds the engine and decides
# property PID on the current tree of /repo.
export HOME="${HOME:-/root}"
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod CGO_ENABLED=1 GOSUMDB=off
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE="${GOCACHE:-/root/.cache/go-build}"
here=$(cd "$(dirname "$0")" && pwd)
export VERIF_DIR="$here"
pid=$1
tier=${2:-${VERIF_TIER:-quick}}
shift; [ $# -gt 0 ] && shift
mkdir -p "$here/.bin" "$here/evidence" "$here/replay"
(cd "$here/engine" && go build -o "$here/.bin/engine" .) || exit 2
[ "$pid" = setup ] && exit 0
exec "$here/.bin/engine" check "$pid" -tier "$tier" "$@"
