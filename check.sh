#!/bin/bash
# usage: check.sh <property> [extra vrun flags]
# Builds the monitor against /repo's working tree and runs one check.
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
id=$1; shift
export HOME=${HOME:-/root}
for d in /opt/veriftools/go1.27.3/bin /usr/local/go/bin; do [ -x "$d/go" ] && { PATH=$d:$PATH; break; }; done
export PATH
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOSUMDB=off
export GOPATH=${GOPATH:-/root/go} GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod} GOCACHE=${GOCACHE:-/root/.cache/go-build}
unset GOOS GOARCH GODEBUG GOTRACEBACK GORACE GOEXPERIMENT CGO_ENABLED
work=$(mktemp -d /tmp/vcheck.XXXXXXXX) || { echo "ERROR cannot make a scratch directory"; exit 2; }
trap 'chmod -R u+rwX "$work" 2>/dev/null; rm -rf "$work"' EXIT
trap 'exit 2' INT TERM HUP
export TMPDIR=$work/tmp
mkdir -p "$work/tmp" "$work/run" && chmod 711 "$work"
cp "$here/harness/go.mod" "$work/go.mod" && cp "$here/harness/go.sum" "$work/go.sum" || exit 2
race=
case $id in C21) race=-race ;; esac
if ! (cd "$here/harness" && go build $race -modfile="$work/go.mod" -o "$work/vrun" .) >"$work/build.log" 2>&1; then
	echo "ERROR the monitor does not build against /repo"
	tail -n 40 "$work/build.log"
	exit 2
fi
case $id in
setup)
	(cd "$here/harness" && go build -race -modfile="$work/go.mod" -o "$work/vrun-race" .) >"$work/build.log" 2>&1 || exit 2
	exit 0
	;;
C22)
	# the command-line client under test
	if ! (cd /repo && cp go.mod "$work/repo.mod" && cp go.sum "$work/repo.sum" && go build -modfile="$work/repo.mod" -o "$work/tuf-client" ./examples/cli/tuf-client) >"$work/build.log" 2>&1; then
		echo "ERROR the command-line client does not build"
		tail -n 40 "$work/build.log"
		exit 2
	fi
	export VERIF_CLI=$work/tuf-client
	;;
esac
tier=${VERIF_TIER:-quick}
[ "$tier" = thorough ] || tier=quick
"$work/vrun" -prop "$id" -tier "$tier" -seed "${VERIF_SEED:-1}" -work "$work/run" -verif "$here" -repo /repo "$@" &
pid=$!
wait $pid
rc=$?
case $rc in
0|1) ;;
*) rc=2 ;;
esac
exit $rc
