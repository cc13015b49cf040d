#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough]
#        check.sh --replay FILE        run a recorded counterexample on the real code
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root}
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:/opt/veriftools/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOPATH=${GOPATH:-/root/go} GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod} GOCACHE=${GOCACHE:-/root/.cache/go-build}
unset GOROOT GOWORK GOFLAGS
REPO=${VERIF_REPO:-/repo}
mkdir -p "$here/.build" "$here/evidence" "$here/replays"
(cd "$here/engine" && GOFLAGS=-mod=mod flock "$here/.build/lock" go build -o "$here/.build/gosym" .) || { echo "engine build failed" >&2; exit 2; }
if [ "$1" = --setup ]; then exit 0; fi
if [ "$1" = --replay ]; then
	exec "$here/.build/gosym" -root "$REPO" -verif "$here" -replay "$2"
fi
exec "$here/.build/gosym" -root "$REPO" -verif "$here" -prop "$1" -tier "${2:-quick}"
