#!/bin/bash
# check.sh <property>: decides one property on /repo's current source.
here="$(cd "$(dirname "$0")" && pwd)"
. "$here/env.sh"
bin="$here/bin/negcheck"
if [ ! -x "$bin" ] || [ -n "$(find "$here/checker" -name '*.go' -newer "$bin" -print -quit)" ]; then
  bash "$here/setup.sh" || exit 2
fi
cd "$here"
# go list may want to complete go.sum; work from the files as they are.
export GOFLAGS=-mod=readonly
exec "$bin" -prop "$1" -repo "${NEGCHECK_REPO:-/repo}" -out "$here/evidence"
