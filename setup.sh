#!/bin/bash
# Builds every variant once, so that Go's build cache is warm and a broken toolchain shows.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d /tmp/verif.XXXXXX) || exit 3
trap 'rm -rf "$tmp"' EXIT
"$here/build.sh" "$tmp" plain asan race instr
