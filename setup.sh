#!/bin/bash
# Builds the analyser from the committed sources.
set -e
here="$(cd "$(dirname "$0")" && pwd)"
. "$here/env.sh"
mkdir -p "$here/bin"
unset GOOS GOARCH
cd "$here/checker"
go build -o "$here/bin/negcheck" .
