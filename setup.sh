#!/bin/bash
# builds the analyser (offline) and checks that it can load /repo
set -eu
cd "$(dirname "$0")"
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod CGO_ENABLED=0 GOWORK=off
[ -d /opt/veriftools/go1.27.3/bin ] && PATH=/opt/veriftools/go1.27.3/bin:$PATH
export PATH HOME=${HOME:-/root}
mkdir -p bin evidence
(cd kcheck && go build -o ../bin/kcheck .)
bin/kcheck -list >/dev/null
