#!/bin/bash
# litrand.sh ARGS...: random litmus programs, outcomes with and without reduction
cd "$(dirname "$0")/.." || exit 2
export VERIF_DIR="$PWD" GOSYM_COVERS=1
timeout 800 bin/gosym run -prop LIT -only Random -no-native -v -all "$@" > /tmp/r1.txt 2>&1
timeout 800 bin/gosym run -prop LIT -only Random -no-native -v -all -full "$@" > /tmp/r2.txt 2>&1
grep -c ^covers /tmp/r1.txt /tmp/r2.txt
diff <(grep ^covers /tmp/r1.txt|sort) <(grep ^covers /tmp/r2.txt|sort) | cut -c1-${W:-300} | head -${H:-20}
rm -f evidence/LIT.json
