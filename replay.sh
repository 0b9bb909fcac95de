#!/bin/bash
# usage: replay.sh FILE: runs the oracle on one recorded case against /repo's working tree
file=$(realpath "$1"); cd "$(dirname "$0")" || exit 2
. ./lib.sh
work=$(mktemp -d /tmp/verif-replay.XXXXXX) || exit 2
trap '/bin/rm -rf "$work"' EXIT
build_harness "$work/h" $(build_kind "$(sed -n 's/^ *"property": *"\([A-Z0-9]*\)".*/\1/p' "$file" | head -1)") || exit 2
TMPDIR=$work "$work/h" -mode replay -file "$file"
