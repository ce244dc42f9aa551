#!/bin/bash
# Usage: run.sh <property> [quick|thorough]   decide one property on /repo's working tree
#        run.sh replay <file>                 re-run a recorded violation
# Rebuilds the checker against /repo's current sources, then runs it.
set -u
here=$(cd "$(dirname "$0")" && pwd)
export VERIF_DIR=$here
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GONOSUMDB=* GONOSUMCHECK=1
export PATH=/usr/local/bin:/usr/local/go/bin:/usr/bin:/bin:/usr/sbin:/sbin:$PATH
mkdir -p "$here/.build"
bin=$here/.build/mc.$$
trap 'rm -f "$bin"' EXIT
(cd "$here/harness" && go build -o "$bin" ./mc) || { echo "the checker does not build against /repo"; exit 2; }
if [ "$1" = build ]; then exit 0; fi
if [ "$1" = replay ]; then "$bin" replay "$2"; exit $?; fi
"$bin" check "$1" "${2:-${VERIF_TIER:-quick}}"
