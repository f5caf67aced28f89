#!/bin/bash
# check.sh ID [quick|thorough] [--case N]: builds the checker against /repo's
# working tree and runs one check. Exit 0 held, 1 violation, 2 internal error.
cd "$(dirname "$0")" || exit 2
export PATH=/opt/veriftools/go1.25.14/bin:$PATH HOME=/root
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOGC=
unset GOGC GODEBUG GORACE
export MC_ROOT=$PWD
mkdir -p .build evidence || exit 2
base=$PWD/.build/mc.$$
bin=$base
ov=$PWD/.build/ov.$$
race=$PWD/.build/race.$$
trap 'rm -rf "$base" "$base.race" "$ov"; rm -f "$race".*' EXIT
(cd mc && go build -o "$bin" .) || { echo "build failed" >&2; exit 2; }
if [ "$1" = C08 ]; then
	# Concurrency: an instrumented copy of the repository's packages under the
	# controlled scheduler and the race detector.
	fine=
	[ "${2:-$VERIF_TIER}" = thorough ] && fine=fine
	over=
	"$bin" instrument /repo "$ov" "$PWD/mc" $fine && over="-overlay $ov/overlay.json"
	build() { (cd mc && go build -race -gcflags=all=-d=checkptr=0 "$@" -o "$bin.race" .); }
	if ! build $over; then
		echo "the instrumented build failed; running free" >&2
		build || { echo "build failed" >&2; exit 2; }
	fi
	export GORACE="log_path=$race exitcode=0"
	bin=$bin.race
fi
"$bin" run "$@"
