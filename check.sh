#!/bin/bash
# usage: check.sh PROPERTY   decides one property of /repo's current source
#        check.sh --build    only builds the analyzer
cd "$(dirname "$0")" || exit 2
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
build() {
	mkdir -p bin && (cd analyzer && GOFLAGS=-mod=vendor GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off go build -o ../bin/wikilint .)
}
if [ "$1" = --build ]; then
	build
	exit
fi
if [ ! -x bin/wikilint ] || [ -n "$(find analyzer -maxdepth 1 -name '*.go' -newer bin/wikilint -print -quit)" ]; then
	build || { echo "cannot build the analyzer"; exit 2; }
fi
mkdir -p evidence
exec bin/wikilint -p "$1" -verif .
