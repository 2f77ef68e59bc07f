#!/bin/bash
# usage: trybug.sh <seeded id or patch file> <property>...   applies to /repo, runs the checks, undoes
p=$1; shift
[ -f "$p" ] || p=/verif/seeded/$p/patch.diff
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
git -C /repo apply "$p" || exit 2
for id in "$@"; do
	/verif/check.sh "$id" >/tmp/trybug.$id.log 2>&1; rc=$?
	echo "$(basename "$(dirname "$p")") $id rc=$rc $(grep -m1 -E '^(VIOLATION|ERROR)' /tmp/trybug.$id.log)"
done
git -C /repo checkout -q -- .
