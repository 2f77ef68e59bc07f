#!/bin/bash
# usage: mkseed.sh <id> <pkg> [go test args]
# Takes the change made in the scratch copy /tmp/seed and the test in
# /tmp/seed_demo_test.go (or one already in seeded/<id>), makes
# /verif/seeded/<id> and confirms it. meta.json is written by hand.
set -u
id=$1 pkg=$2; shift 2
d=/verif/seeded/$id
mkdir -p "$d"
. /opt/vp/env.sh; cd /
git -C /tmp/seed diff -- . ':!*_test.go' >"$d/patch.diff"
[ -s "$d/patch.diff" ] || { echo "no change"; exit 1; }
[ -f /tmp/seed_demo_test.go ] && mv /tmp/seed_demo_test.go "$d/demo_test.go"
grep -q 'newSim(' "$d/demo_test.go" && sed "s/^package updater_test/$(grep -m1 '^package' "$d/demo_test.go")/" /verif/tools/sim_test.go.txt >"$d/sim_test.go"
sed "s#@PKG@#$pkg#g; s#@ARGS@#$*#" /verif/tools/demo.sh.txt >"$d/demo.sh"; chmod +x "$d/demo.sh"
ok=1
(cd /tmp/seed && go build ./... && go vet ./metadata/... >/dev/null) || { echo "BUILD FAILS"; ok=0; }
(cd /tmp/seed && go test -count=1 ./metadata ./metadata/config ./metadata/repository ./metadata/trustedmetadata ./metadata/updater >/tmp/seed_test.log 2>&1) || { echo "TESTS FAIL"; grep -E '^(---|FAIL|#|[^ ]*:[0-9]+:)' /tmp/seed_test.log | head; ok=0; }
(cd /repo && "$d/demo.sh" >/tmp/seed_demo0.log 2>&1) || { echo "DEMO FAILS ON UNCHANGED"; tail -20 /tmp/seed_demo0.log; ok=0; }
if (cd /tmp/seed && "$d/demo.sh" >/tmp/seed_demo1.log 2>&1); then echo "DEMO PASSES WITH PATCH"; ok=0; else grep -vE '^(FAIL|exit|ok)' /tmp/seed_demo1.log | head -5; fi
git -C /repo apply --check "$d/patch.diff" || ok=0
[ $ok = 1 ] && echo "SEED OK $id" || echo "SEED BAD $id"
git -C /tmp/seed checkout -q -- .
