#!/bin/bash
# Run checks against a changed copy of /repo, outside /repo and /verif.
# usage: mutant.sh NAME PATCH PROP...   (PATCH may be a .diff or a script run with cwd in the copy)
set -u
name=$1 patch=$2; shift 2
W=/tmp/mut-$name
[ -n "$name" ] || exit 2
mkdir -p "$W"
git clone -q /repo "$W/repo" || exit 2
case "$patch" in
*.diff) (cd "$W/repo" && git apply "$patch") || { echo "$name: patch does not apply"; rm -rf "/tmp/mut-$name"; exit 2; } ;;
*) (cd "$W/repo" && bash "$patch") || { echo "$name: script failed"; rm -rf "/tmp/mut-$name"; exit 2; } ;;
esac
(cd "$W/repo" && git diff --stat | tail -1)
for p in "$@"; do
	out=$(B64_REPO=$W/repo B64_BUILD=$W/build B64_OUT=$W/out VERIF_SEED=${VERIF_SEED:-1} python3 ${VW:-/verif}/check.py "$p" 2>&1); rc=$?
	echo "== $name $p rc=$rc"; echo "$out" | tail -${LINES_SHOWN:-4}
done
rm -rf "/tmp/mut-$name"
