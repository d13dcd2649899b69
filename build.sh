#!/bin/bash
# usage: build.sh OUTDIR VARIANT...   builds the checker against /repo's working tree
set -u
here=$(cd "$(dirname "$0")" && pwd)
. "$here/env.sh"
out=$1; shift
goroot=$(go env GOROOT)
mh=$goroot/src/hash/maphash
tags=${VERIF_TYPES:+values} # see mc/values.go
# Snapshots read whole allocations: let the allocator clear their unused tails as well.
rt=$goroot/src/runtime/malloc.go more=
sed '/^func mallocgcSmallScanNoHeader(/,/^}/s/memclrNoHeapPointers(x, size)$/memclrNoHeapPointers(x, span.elemsize)/' "$rt" >"$out/malloc.go"
cmp -s "$rt" "$out/malloc.go" || more=", \"$rt\": \"$out/malloc.go\""
# The memory of a stack is overwritten when it moves (C16, stage stack).
st=$goroot/src/runtime/stack.go
sed 's/^\(\tstackPoisonCopy *= \)0 /\11 /' "$st" >"$out/stack.go"
cmp -s "$st" "$out/stack.go" || more="$more, \"$st\": \"$out/stack.go\""
cat >"$out/plain.json" <<J
{"Replace": {"$mh/maphash.go": "$here/stub/maphash.go"$more}}
J
build() { # variant flags...
	local v=$1; shift
	(cd "$here/mc" && go build -overlay "$out/$ov.json" -ldflags=-checklinkname=0 -tags "$tags,$tag" "$@" -o "$out/$v" .) 
}
for v; do
	ov=plain tag=
	case $v in
	plain) flags=() ;;
	asan) flags=(-asan -gcflags=all=-d=checkptr=0) ;;
	race) flags=(-race -gcflags=all=-d=checkptr=0) ;;
	instr)
		ov=instr tag=instr flags=()
		mkdir -p "$out/src"
		(cd "$here/instr" && go build -o "$out/instr.tool" .) && "$out/instr.tool" /repo "$out/src" "$out/plain.json" >"$out/instr.json" || {
			echo "build.sh: instrumenting failed" >&2
			exit 3
		}
		;;
	esac
	if ! build "$v" "${flags[@]}" 2>"$out/$v.log"; then
		if [ "${tags%noint}" = "$tags" ] && tags=$tags,noint && build "$v" "${flags[@]}" 2>>"$out/$v.log"; then
			continue
		fi
		cat "$out/$v.log" >&2
		echo "build.sh: building variant $v failed" >&2
		exit 3
	fi
done
