#!/bin/bash
# Warms the build cache: everything a check links is compiled once, plainly and instrumented.
cd "$(dirname "$0")" || exit 1
V=$PWD
. ./env.sh
S=$(mktemp -d /tmp/mc.setup.XXXXXX) || exit 1
trap 'rm -rf "$S"' EXIT
cd mc || exit 1
cp go.mod "$S/go.mod"; cp go.sum "$S/go.sum"
for d in cmd/*/; do
  build_check "$(basename "$d")" "$S/x" "$S" || echo "warning: $d does not build"
done
exit 0
