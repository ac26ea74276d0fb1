# sourced: build.sh WORK REPO PROPERTY
# Leaves $WORK/bin/xsim (and RACEBIN, XSIM_CLI where the property needs them).
bwork=$1; brepo=$2; bprop=$3
bhere=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off GOWORK=off
mkdir -p "$bwork/bin" "$bwork/sim"
RACEBIN=
io=(); tags=()
case $bprop in C09|C12) io=(-sysio); tags=(-tags sysio);; esac
# the module is built from a private copy so that its go.mod can name the tree
cp -a "$bhere/sim/." "$bwork/sim/" || return 3
sed -i "s#=> /repo\$#=> $brepo#" "$bwork/sim/go.mod"
( cd "$bwork/sim" && CGO_ENABLED=0 go build -o "$bwork/bin/instrument" ./cmd/instrument ) || return 3
bok=0
for level in 3 2 1; do
  /bin/rm -rf -- "$bwork/ov"; mkdir -p "$bwork/ov"
  if "$bwork/bin/instrument" -repo "$brepo" -sim "$bwork/sim" -out "$bwork/ov" -level $level "${io[@]}" >"$bwork/instr.log" 2>&1 &&
     ( cd "$bwork/sim" && CGO_ENABLED=0 go build -overlay "$bwork/ov/overlay.json" "${tags[@]}" -o "$bwork/bin/xsim" ./cmd/xsim ) >"$bwork/build.log" 2>&1; then
    bok=1; break
  fi
  echo "check: instrumentation level $level does not build" >&2
  head -c 2000 "$bwork/instr.log" "$bwork/build.log" >&2
done
[ $bok = 1 ] || return 3
case $bprop in
C05|C07)
  ( cd "$bwork/sim" && CGO_ENABLED=1 go build -race -overlay "$bwork/ov/overlay.json" -o "$bwork/bin/xsim-race" ./cmd/xsim ) || return 3
  RACEBIN=$bwork/bin/xsim-race;;
C12)
  ( cd "$bwork/sim" && CGO_ENABLED=0 go build -overlay "$bwork/ov/overlay.json" "${tags[@]}" -o "$bwork/bin/xbnf-cli" github.com/cnsgfk/xbnf/main ) || return 3
  export XSIM_CLI=$bwork/bin/xbnf-cli;;
esac
return 0
