#!/bin/bash
# run.sh ID: builds the explorer against /repo's working tree and decides one property.
here="$(cd "$(dirname "$0")" && pwd)"
. "$here/env.sh"
tmp="$(mktemp -d /tmp/mcbin-XXXXXX)" || exit 2
trap 'rm -rf "$tmp"' EXIT
cd "$here/mc" || exit 2
go build -o "$tmp/mc" . || { echo "HARNESS-ERROR: build failed"; exit 2; }
case "$*" in
*C16*) # the free-running pass of C16 needs the race detector
	go build -race -o "$tmp/mcrace" . && export MC_RACE_BIN="$tmp/mcrace" ;;
*C39*) # the command under test, and a place for its files
	go build -o "$tmp/tplconv" github.com/qiniu/text/tpl/cmd/tplconv && mkdir "$tmp/scratch" ||
		{ echo "HARNESS-ERROR: build of tplconv failed"; exit 2; }
	export MC_TPLCONV="$tmp/tplconv" MC_SCRATCH="$tmp/scratch" ;;
*C40*) # the programs under test
	mkdir "$tmp/examples" && go build -o "$tmp/examples/" github.com/qiniu/text/tpl/examples/calculator github.com/qiniu/text/tpl/examples/cmplxcalc github.com/qiniu/text/tpl/examples/ratcalc ||
		{ echo "HARNESS-ERROR: build of the examples failed"; exit 2; }
	export MC_EXAMPLES="$tmp/examples" ;;
*C27*|*C28*) # generate code with the generator under test, build it into the explorer
	cp -r "$here/mc" "$tmp/src" || exit 2
	tier="${VERIF_TIER:-quick}"
	case "$1" in */*) grep -q '"tier": "thorough"' "$1" && tier=thorough ;; esac
	case "$*" in
	*C27*) cd "$tmp/src" && "$tmp/mc" gen "$tmp/src" "$tier" ;;
	*) go build -o "$tmp/tplgen" github.com/qiniu/text/tpl/cmd/tplgen && cd "$tmp/src" &&
		"$tmp/mc" gentpl "$tmp/src" "$tier" "$tmp/tplgen" ;;
	esac && go build -o "$tmp/mc" . ||
		{ echo "HARNESS-ERROR: build of the generated code failed"; exit 2; } ;;
esac
VERIF_DIR="$here" "$tmp/mc" "${MC_CMD:-check}" "$@"
