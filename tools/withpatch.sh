#!/bin/bash
# withpatch.sh PATCH CMD...: run CMD with VERIF_REPO set to a scratch copy of /repo with PATCH applied.
set -e
P=$(readlink -f "$1"); shift
D=$(mktemp -d /tmp/wp.XXXXXX)
trap "rm -rf $D" EXIT
cp -a /repo $D/repo
git -C $D/repo apply "$P"
VERIF_REPO=$D/repo "$@"
