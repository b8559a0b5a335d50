#!/bin/bash
# check.sh <property> [quick|thorough]   decide one property on /repo's current tree
# check.sh --replay FILE                 replay a recorded counterexample on the real code
# check.sh --list                        list the harnesses
export HOME=${HOME:-/root} PATH=/usr/local/bin:/usr/local/sbin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off
root=$(cd "$(dirname "$0")" && pwd)
bin=$(mktemp -d "${TMPDIR:-/tmp}/avcheck.XXXXXX") || exit 2
trap 'rm -rf "$bin"' EXIT
(cd "$root/engine" && go build -o "$bin/engine" .) || { echo "the engine does not build" >&2; exit 2; }
case "$1" in
--replay) "$bin/engine" -root "$root" -replay "$2" ;;
--list) "$bin/engine" -root "$root" -list ;;
*) "$bin/engine" -root "$root" -prop "$1" -tier "${2:-${VERIF_TIER:-quick}}" ;;
esac
