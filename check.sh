#!/bin/bash
# check.sh PROPERTY [quick|thorough]: decides one property on /repo's working tree.
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
./build.sh >&2 || exit 2
exec bin/gosym run -prop "$1" -tier "${2:-${VERIF_TIER:-quick}}"
