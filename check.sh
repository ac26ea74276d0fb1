#!/bin/bash
# check.sh PROPERTY [quick|thorough] [extra xsim flags]
# Instruments /repo's current tree, builds the simulator against it and
# decides one property. Exit 0: held; 1: VIOLATION; other: no answer.
set -u
prop=$1; shift
tier=${VERIF_TIER:-quick}
case "${1:-}" in quick|thorough) tier=$1; shift;; esac
seed=${VERIF_SEED:-1}
here=$(cd "$(dirname "$0")" && pwd)
repo=${XSIM_REPO:-/repo}
work=$(mktemp -d /tmp/xsim-XXXXXXXX) || exit 3
trap '/bin/rm -rf -- "$work"' EXIT
trap 'exit 3' INT TERM HUP
# a race in the test environment's own variables must not change the outcome
unset XSIM_PLAN XSIM_MAPSEED XSIM_BUDGET XSIM_CLI GORACE GODEBUG GOGC GOMAXPROCS
. "$here/build.sh" "$work" "$repo" "$prop" || exit 3
flags=(-prop "$prop" -tier "$tier" -verif "$here" -work "$work/scratch" -seed "$seed")
[ -n "${RACEBIN:-}" ] && flags+=(-race "$RACEBIN")
mkdir -p "$work/scratch"
"$work/bin/xsim" check "${flags[@]}" "$@"
