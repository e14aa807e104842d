#!/bin/bash
# Development self-test: rewrites whole copies of the repository with every
# transformation of kcheck/refactor (none changes behaviour) and lists what the
# analyser says about them.  usage: refactor.sh [-p PROP] [TRANSFORM[+TRANSFORM...] ...]
source /opt/vp/env.sh; export GOSUMDB=off
P=all; [ "$1" = -p ] && { P=$2; shift 2; }
KC=${KC:-/tmp/kc}; W=/tmp/rfw; mkdir -p $W
(cd "$(dirname "$0")/../kcheck" && go build -o /tmp/rf ./refactor) || exit 2
one() { t=$1
  rm -rf $W/$t; cp -a /repo $W/$t
  for x in ${t//+/ }; do
    /tmp/rf -dir $W/$t -t $x $RFOPT >/dev/null || echo "$t: NOT REWRITTEN"
  done
  (cd $W/$t && go build ./... ) >/dev/null 2>&1 || { echo "$t: NO BUILD"; return; }
  timeout 1500 $KC -prop $P -noevidence -repo $W/$t >$W/$t.out 2>&1
  echo "$t: $? $(grep -a '^VIOLATION' $W/$t.out | sed 's/.*property=\([A-Z0-9]*\).*/\1/' | sort -u | tr '\n' ' ')"
}
export -f one; export W KC P RFOPT
( [ $# -gt 0 ] && printf '%s\n' "$@" || /tmp/rf -list ) | xargs -P ${JOBS:-6} -I{} bash -c 'one {}'
