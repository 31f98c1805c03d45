#!/bin/bash
# run.sh <property> <tier>: rebuilds the checker from /repo's working tree and runs one check.
set -u
here=$(cd "$(dirname "$0")" && pwd)
id=$1
tier=${2:-quick}
if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh; fi
export GOFLAGS="-mod=mod -buildvcs=false" GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off MC_VERIF="$here"
tmp=$(mktemp -d /tmp/mcbuild.XXXXXX)
chmod 755 "$tmp"
trap '/bin/rm -r -f "$tmp"' EXIT
if ! (cd "$here/mc" && go build -o "$tmp/mc" .) 2>"$tmp/err"; then
  cat "$tmp/err" >&2
  exit 3
fi
TMPDIR="$tmp" "$tmp/mc" run "$id" "$tier"
exit $?
