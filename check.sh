#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough]   |   check.sh -replay FILE
# Exit 0: the property held on everything explored. Exit 1 and a VIOLATION line: broken.
# Anything else: the check itself failed.
set -u
here=$(cd "$(dirname "$0")" && pwd)
started=$(date +%s)
tmp=$(mktemp -d /tmp/verif.XXXXXX) || exit 3
trap 'rm -rf "$tmp"' EXIT
prop=$1
[ "$1" = -replay ] && prop=$(sed -n 's/^ *"Property": "\(.*\)",*$/\1/p' "$2")
case $prop in C19|C27) export VERIF_TYPES=1 ;; *) unset VERIF_TYPES ;; esac
"$here/build.sh" "$tmp" plain || exit 3
if [ "$1" = -replay ]; then
	tier=$(sed -n 's/^ *"Tier": "\(.*\)",*$/\1/p' "$2")
	args=(-replay "$2")
else
	tier=${2:-${VERIF_TIER:-quick}}
	args=(-prop "$prop" -tier "$tier" -out "$here" -started "$started" "${@:3}")
fi
bins=
for v in $("$tmp/plain" -variants -prop "$prop" -tier "$tier"); do
	[ "$v" = plain ] || "$here/build.sh" "$tmp" "$v" || exit 3
	bins=$bins,$v=$tmp/$v
done
"$tmp/plain" -bins "${bins#,}" "${args[@]}"
