#!/bin/bash
# thorough.sh <property>: decides one property as check.sh does, for the source
# as built on other platforms too (other build constraints, other int sizes).
here="$(cd "$(dirname "$0")" && pwd)"
for p in linux/386 windows/amd64 darwin/arm64 linux/amd64; do
  echo "== $p"
  GOOS=${p%/*} GOARCH=${p#*/} VERIF_TIER=thorough bash "$here/check.sh" "$1" || exit $?
done
