#!/bin/bash
# Run each planted bug against the check of its property, in scratch copies.
# usage: run_bugs.sh [ID...]   (B64_QUICK_S and VERIF_SEED are passed on)
set -u
export SEEDED=${SEEDED:-/verif/seeded}; cd "$SEEDED" || exit 2
ids=("$@"); [ $# -gt 0 ] || ids=(*)
for id in "${ids[@]}"; do
	p=$(python3 -c 'import json,sys;print(json.load(open(sys.argv[1]))["property"])' "$SEEDED/$id/meta.json")
	LINES_SHOWN=3 bash ${VW:-/verif}/tools/mutant.sh "$id" "$SEEDED/$id/patch.diff" "$p"
done
