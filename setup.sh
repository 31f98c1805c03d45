#!/bin/bash
# warms the build cache; every check rebuilds from /repo's current tree anyway
here=$(cd "$(dirname "$0")" && pwd)
if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh; fi
export GOFLAGS="-mod=mod -buildvcs=false" GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off MC_VERIF="$here"
mkdir -p "$here/evidence"
cd "$here/mc" && go build -o /dev/null .
