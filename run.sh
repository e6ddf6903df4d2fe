#!/bin/bash
# run.sh <property id> [args of the check]: builds the check against the current
# working tree of /repo and runs it. Exit 0 held, 1 violated, other: no answer.
ID=$1; shift
V=$(cd "$(dirname "$0")" && pwd)
export MC_VERIF=$V
. "$V/env.sh"
S=$(mktemp -d /tmp/mc.$ID.XXXXXX) || exit 3
trap 'rm -rf "$S"' EXIT
export MC_SCRATCH=$S TMPDIR=$S
export TDEX_DATA_DIR_PATH=$S/daemon TDEX_OPERATOR_DATADIR=$S/operator
D=$(echo "$ID" | tr 'A-Z' 'a-z')
cd "$V/mc" || exit 3
if ! build_check "$D" "$S/$D" "$S"; then
  echo "the check of $ID does not build against this tree"
  exit 3
fi
${MC_KEEP:+cp "$S/$D" "$MC_KEEP"}
"$S/$D" "$@"
rc=$?
[ "$rc" = 0 ] || [ "$rc" = 1 ] || echo "check ended with $rc"
exit $rc
