#!/bin/bash
# run.sh PROPERTY TIER: builds the explorer against /repo's current working tree and runs one check.
# Exit 0: held on everything explored. Exit 1 with a VIOLATION line: broken. 2: the check itself failed.
set -u
PROP=$1
TIER=${2:-${VERIF_TIER:-quick}}
HERE=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
REPO=${VERIF_REPO:-/repo}
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS= GOWORK=off GO111MODULE=on HOME=${HOME:-/root}
export PATH="/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH"
T=$(mktemp -d /tmp/verif-$PROP-XXXXXX) || exit 2
trap 'rm -rf "$T"' EXIT
die() { echo "check $PROP: $*" >&2; exit 2; }

# a private workspace, so that nothing under /verif or /repo is written by the build
cat >"$T/go.work" <<W
go 1.23
use $HERE/mc
use $REPO/v1
use $REPO/v2
use $REPO/v3
W
cd "$HERE/mc" || exit 2
export GOWORK="$T/go.work"

MODE=seq
case $PROP in
C13) MODE=sched ;;
C17 | C18) MODE=gen ;;
C09 | C14 | C16) MODE=race ;;
esac

go build -o "$T/instr" ./cmd/instr || die "cannot build the instrumenter"
mkdir "$T/ov"
POINTS=
case $MODE in sched | race) POINTS=-points ;; esac
RACE=
[ $MODE = race ] && RACE=-race
"$T/instr" -out "$T/ov" $POINTS "$REPO/v1" "$REPO/v2" "$REPO/v3" || die "cannot instrument"
if [ $MODE = gen ]; then
	chmod 711 "$T"
	mkdir "$T/gen"
	generator() { (cd "$1" && GOWORK=off GOFLAGS=-mod=mod go build -o "$2" .); }
	cp -r "$REPO/generation" "$T/gensrc" && generator "$T/gensrc" "$T/generation" || die "cannot build the generator"
	if [ $PROP = C17 ]; then
		go build -o "$T/gen17" ./cmd/gen17 || die "cannot build gen17"
		"$T/gen17" -gen "$T/generation" -repo "$REPO" -out "$T/gen" -adapters "$HERE/mc/impl/adapters_gen.go" -impl "$HERE/mc/impl" || die "cannot prepare"
		"$T/instr" -out "$T/ov" -merge "$T/gen/overlay.json" "$REPO/v1" "$REPO/v2" "$REPO/v3" || die "cannot instrument"
		sed 's/^/use /' "$T/gen/modules" >>"$T/go.work"
	else
		go build -o "$T/maporder" ./cmd/maporder && "$T/maporder" "$T/gensrc" || die "cannot instrument the generator"
		generator "$T/gensrc" "$T/generation-ordered" || rm -f "$T/generation-ordered" # its unit reports that
	fi
fi
if ! go build $RACE -overlay "$T/ov/overlay.json" -o "$T/mc" ./cmd/mc 2>"$T/err"; then
	cat "$T/err" >&2
	"$T/instr" -nochan -out "$T/ov" $POINTS "$REPO/v1" "$REPO/v2" "$REPO/v3" || die "cannot instrument"
	[ $MODE = gen ] || go build $RACE -overlay "$T/ov/overlay.json" -o "$T/mc" ./cmd/mc || [ $MODE = seq ] || die "cannot build"
	[ $MODE != gen ] || die "cannot build"
	# without the replacement of the locks, a lock that stays held shows as a hang
	[ -x "$T/mc" ] || go build -o "$T/mc" ./cmd/mc || die "cannot build"
fi
mkdir -p "$HERE/evidence" "$HERE/out"
export MC_REPO=$REPO MC_TMP=$T MC_EVIDENCE=${MC_EVIDENCE:-$HERE/evidence/$PROP.json} MC_REPLAYS=${MC_REPLAYS:-$HERE/out}
[ $MODE = race ] && export GORACE="log_path=$T/race exitcode=0 suppress_equal_stacks=0 history_size=7 atexit_sleep_ms=0"
if [ "$TIER" = replay ]; then # run.sh PROPERTY replay FILE: runs the recorded failure again
	"$T/mc" replay "$3"
	exit
fi
"$T/mc" run "$PROP" "$TIER"
rc=$?
[ $rc -le 1 ] || die "exit status $rc"
exit $rc
