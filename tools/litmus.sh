#!/bin/bash
# litmus.sh: compares the outcomes of small concurrent programs with and without
# partial order reduction (a test of the engine, not of /repo).
cd "$(dirname "$0")/.." || exit 2
export VERIF_DIR="$PWD" GOSYM_COVERS=1
for n in $(seq 0 ${1:-13}); do
	a=$(timeout 300 bin/gosym run -prop LIT -args $n -no-native -budget 200 -v 2>&1 | grep -E '^(covers|VIOL)' | cut -c1-900)
	b=$(timeout 300 bin/gosym run -prop LIT -args $n -no-native -full -budget 200 -v 2>&1 | grep -E '^(covers|VIOL)' | cut -c1-900)
	if [ "$a" = "$b" ]; then echo "$n same $(echo "$a" | cut -c1-70)"; else echo "$n DIFFER"; echo "  dpor $a"; echo "  full $b"; fi
done
rm -f evidence/LIT.json
