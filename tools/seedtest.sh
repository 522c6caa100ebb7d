#!/bin/bash
# seedtest.sh ID...: runs the property's quick check on a scratch copy with the planted change
cd "$(dirname "$0")/.." || exit 2
export VERIF_DIR="$PWD"
[ $# -gt 0 ] || set -- $(ls seeded)
for id in "$@"; do
	p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
	s=$(date +%s)
	timeout 900 tools/withpatch.sh seeded/$id/patch.diff bin/gosym run -prop $p -tier quick > /tmp/seedtest.out 2>&1
	rc=$?
	echo "$id $p rc=$rc $(( $(date +%s)-s ))s $(grep -m1 -A1 ^VIOLATION /tmp/seedtest.out | tr '\n' ' ' | cut -c1-230)"
done
