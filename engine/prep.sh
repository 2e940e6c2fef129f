#!/bin/bash
# Compile every non-test source of /repo to IR with debug info, link, promote locals. $1 = fresh output directory.
set -e
REPO=${REPO:-/repo}; OUT=$1; mkdir -p "$OUT"
cd "$REPO/src"
INC="-I. -I./common/util -I./common -I./dns -I./http -I./app -I./bin -I./test"
n=0
FILES=$(find . -name '*.c' -not -path './test/*' | sort)
for f in $FILES; do
  o="$OUT/$(echo "$f" | sed 's#^\./##; s#/#_#g').bc"
  /usr/bin/clang-18 -O0 -Xclang -disable-O0-optnone -fno-discard-value-names -gdwarf-4 -w -emit-llvm -c $INC "$f" -o "$o" &
  n=$((n+1)); [ $((n%8)) = 0 ] && wait
done
wait
for f in $FILES; do
  o="$OUT/$(echo "$f" | sed 's#^\./##; s#/#_#g').bc"; [ -s "$o" ] || { echo "compile failed: $f" >&2; exit 2; }
done
/usr/bin/llvm-link-18 "$OUT"/*.c.bc -o "$OUT/linked.bc" 2>/dev/null
/usr/bin/opt-18 -passes='function(mem2reg)' "$OUT/linked.bc" -o "$OUT/prog.bc"
