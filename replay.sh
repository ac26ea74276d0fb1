#!/bin/bash
# replay.sh FILE: rebuilds from /repo's current tree and runs a replay file.
set -u
here=$(cd "$(dirname "$0")" && pwd)
file=$(readlink -f "$1") || exit 3
prop=$(sed -n 's/^ "property": "\(C[0-9]*\)".*/\1/p' "$file" | head -1)
work=$(mktemp -d /tmp/xsim-XXXXXXXX) || exit 3
trap '/bin/rm -rf -- "$work"' EXIT
unset XSIM_PLAN XSIM_MAPSEED XSIM_BUDGET XSIM_CLI GORACE GODEBUG GOGC GOMAXPROCS
. "$here/build.sh" "$work" "${XSIM_REPO:-/repo}" "$prop" || exit 3
f=(-f "$file"); [ -n "${RACEBIN:-}" ] && f+=(-race "$RACEBIN")
"$work/bin/xsim" replay "${f[@]}"
