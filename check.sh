#!/bin/bash
# usage: check.sh PROPERTY [extra harness flags]
# Builds the harness from /repo's working tree and searches for a violation of one property.
cd "$(dirname "$0")" || exit 2
. ./lib.sh
id=$1; shift
work=$(mktemp -d /tmp/verif-check.XXXXXX) || exit 2
trap '/bin/rm -rf "$work"' EXIT
if ! build_harness "$work/h" $(build_kind "$id"); then
  echo "check $id: the harness does not build against /repo" >&2
  exit 2
fi
seed=${VERIF_SEED:-1}
case $seed in ''|*[!0-9]*) seed=1 ;; esac
TMPDIR=$work "$work/h" -prop "$id" -tier "${VERIF_TIER:-quick}" -seed "$seed" \
  -evidence "$VERIF_DIR/evidence/$id.json" -replays "$VERIF_DIR/replays" -known "$VERIF_DIR/known_findings.txt" "$@"
