#!/bin/bash
# build.sh OUT [SRC]: builds the conformance harness from the current sources
# (with NARROW=1 as on systems with 32 bits, where times have another representation)
# The parts inside of contexts and tracks are no public interface: if the harness does not compile
# with them it is built without, and OUT.nopart says so.
set -e
out=$1; src=${2:-/repo/src}; here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d /tmp/bkh.XXXXXX)
trap 'rm -rf "$work"' EXIT
flags="-std=gnu11 -g -O1 -fno-omit-frame-pointer -fsanitize=address -fwrapv -w -D_GNU_SOURCE -I$src"
[ -z "$NARROW" ] || flags="-include $here/narrow.h $flags"
link() { clang -fsanitize=address -Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free,--wrap=rand "$work"/*.o -lm -o "$work/bkh"; }
pids=
i=0
for f in "$src"/*.c; do
  i=$((i+1))
  clang $flags -c "$f" -o "$work/$i.o" & pids="$pids $!"
done
clang $flags -c "$here/bkh.c" -o "$work/h.o" 2> "$work/err" & h=$!
for p in $pids; do wait $p; done
rm -f "$out.nopart"
mkdir -p "$(dirname "$out")"
if ! wait $h || ! link 2>> "$work/err"; then
  if clang $flags -DNO_PART -c "$here/bkh.c" -o "$work/h.o" && link; then
    touch "$out.nopart"
  else
    cat "$work/err"
    exit 1
  fi
fi
mv "$work/bkh" "$out"
