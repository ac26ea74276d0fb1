#!/bin/bash
# Compiles everything once, so that the checks find a warm Go build cache
# (they work without it, only slower).
set -u
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d /tmp/xsim-setup-XXXXXXXX) || exit 1
trap '/bin/rm -rf -- "$work"' EXIT
for p in C01 C05 C12; do
  mkdir "$work/$p"
  ( . "$here/build.sh" "$work/$p" "${XSIM_REPO:-/repo}" $p ) || exit 1
done
