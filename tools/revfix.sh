#!/bin/bash
# usage: revfix.sh <fix commit> <property>...   undoes one fix in /repo, runs the checks, restores
c=$1; shift
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
if ! git -C /repo revert --no-commit "$c" >/tmp/revfix.log 2>&1; then
	git -C /repo revert --abort 2>/dev/null; git -C /repo reset -q --hard HEAD; echo "$c CONFLICT"; exit 3
fi
git -C /repo reset -q
for id in "$@"; do
	/verif/check.sh "$id" >/tmp/revfix.$id.log 2>&1; rc=$?
	echo "$c $id rc=$rc $(grep -c ^VIOLATION /tmp/revfix.$id.log) $(grep -m2 -E '^ +key=|^ERROR' /tmp/revfix.$id.log | tr '\n' ' ')"
done
git -C /repo checkout -q -- .
