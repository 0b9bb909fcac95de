#!/bin/bash
# builds the harness once, which warms the build cache; the checks build it again from /repo's current tree
cd "$(dirname "$0")" || exit 2
. ./lib.sh
work=$(mktemp -d /tmp/verif-setup.XXXXXX) || exit 2
trap '/bin/rm -rf "$work"' EXIT
build_harness "$work/h" && "$work/h" -mode list > /dev/null && build_harness "$work/r" race && "$work/r" -mode list > /dev/null
