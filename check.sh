#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough] - builds the analyser if needed and
# decides one property on the working tree in /repo.
set -u
cd "$(dirname "$0")" || exit 2
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod CGO_ENABLED=0 GOWORK=off
[ -d /opt/veriftools/go1.27.3/bin ] && PATH=/opt/veriftools/go1.27.3/bin:$PATH
export PATH HOME=${HOME:-/root}
mkdir -p bin evidence
(cd kcheck && go build -o ../bin/kcheck .) || { echo "the analyser does not build" >&2; exit 2; }
exec bin/kcheck -prop "$1" -repo "${KCHECK_REPO:-/repo}" -tier "${2:-${VERIF_TIER:-quick}}"
