#!/bin/bash
# Builds everything the checks need, from the committed files and /repo's working tree.
set -u
here=$(cd "$(dirname "$0")" && pwd)
. "$here/lib.sh"
build_rs || exit 1
build_c || exit 1
build_deep || exit 1
