#!/bin/bash
# run.sh build                 build the checker from the committed sources (offline)
# run.sh <quick|thorough> ID   decide one property on /repo's current source
V=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root}
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GO111MODULE=on GOWORK=off GOSUMDB=off
export GOPATH=${GOPATH:-/root/go}
export GOCACHE=${GOCACHE:-/root/.cache/go-build}
export VERIF_DIR=$V
unset GOARCH GOOS
need_build() {
	[ -x "$V/bin/osmcheck" ] || return 0
	[ -n "$(find "$V/checker" -newer "$V/bin/osmcheck" -name '*.go' -not -path '*/vendor/*' -print -quit)" ]
}
build() {
	mkdir -p "$V/bin" || return 1
	(cd "$V/checker" && GOFLAGS=-mod=vendor go build -o "$V/bin/osmcheck.$$" . && mv -f "$V/bin/osmcheck.$$" "$V/bin/osmcheck")
}
case "$1" in
build) build; exit $? ;;
quick|thorough)
	if need_build; then build || { echo "cannot build the checker"; exit 2; }; fi
	export VERIF_TIER=$1
	GOFLAGS=-mod=mod exec "$V/bin/osmcheck" check "$2" ;;
*) echo "usage: $0 build | quick ID | thorough ID"; exit 2 ;;
esac
