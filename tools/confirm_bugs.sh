#!/bin/bash
# Confirm planted bugs in scratch copies of /repo: they build, pass the stable
# tests, and their demonstration fails with the patch and passes without it.
# usage: confirm_bugs.sh [ID...]
set -u
export SEEDED=${SEEDED:-/verif/seeded}; cd "$SEEDED" || exit 2
ids=("$@"); [ $# -gt 0 ] || ids=(*)
one() {
	local id=$1 W=/tmp/confirm-$1
	mkdir -p "$W/vp" && git clone -q /repo "$W/repo" || exit 2
	for f in build.sh test.sh run_tests.py results.py BASELINE.json; do
		[ -f /opt/vp/$f ] && sed "s#/repo#$W/repo#g; s#/opt/vp#$W/vp#g" /opt/vp/$f > "$W/vp/$f"
	done
	cp -a "$SEEDED/$id" "$W/demo"
	rm -f "$W/demo"/*.diff "$W/demo/meta.json"
	local clean
	(cd "$W/repo" && timeout 300 bash "$W/demo/demo.sh" > "$W/clean.log" 2>&1); clean=$?
	git -C "$W/repo" apply "$SEEDED/$id/patch.diff" || echo "$id: DOES NOT APPLY"
	bash "$W/vp/test.sh" "$W/t.json" > "$W/test.log" 2>&1
	local bad=$(python3 -c '
import json,sys
t=json.load(open(sys.argv[1])); b=json.load(open(sys.argv[2]))
print(" ".join(sorted(set(b["stable"])-set(t["passed"]))))' "$W/t.json" "$W/vp/BASELINE.json")
	(cd "$W/repo" && timeout 300 bash "$W/demo/demo.sh" > "$W/bug.log" 2>&1); local bug=$?
	local v=ok
	[ $clean = 0 ] && [ $bug != 0 ] && [ $bug != 99 ] && [ -z "$bad" ] || v=REFUSED
	echo "$id: $v clean=$clean bug=$bug ($(tail -1 "$W/bug.log")) failing tests: ${bad:-none}"
	[ $v = ok ] || { tail -3 "$W/clean.log"; grep -i error "$W/test.log" | head -5; }
	rm -rf "/tmp/confirm-$id"
}
export -f one
printf '%s\n' "${ids[@]}" | xargs -P ${JOBS:-3} -I{} bash -c 'one {}'
