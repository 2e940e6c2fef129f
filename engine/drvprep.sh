#!/bin/bash
# drvprep.sh NAME IRDIR: compile drv/NAME.c against /repo's headers and link it with the IR prep.sh left in IRDIR -> IRDIR/unit_NAME.bc
set -e
REPO=${REPO:-/repo}; N=$1; IR=$2; D=$(cd "$(dirname "$0")" && pwd)/drv
cd "$REPO/src"
INC="-I. -I./common/util -I./common -I./dns -I./http -I./app -I./bin -I./test -I$D"
/usr/bin/clang-18 -O0 -Xclang -disable-O0-optnone -fno-discard-value-names -fno-builtin -gdwarf-4 -w -emit-llvm -c $INC "$D/$N.c" -o "$IR/drv_$N.bc"
skip=$(sed -n 's#^// replaces: ##p' "$D/$N.c" | tr '/' '_')
files=""
for f in "$IR"/*.c.bc; do b=$(basename "$f" .bc); case " $skip " in *" $b "*) ;; *) files="$files $f";; esac; done
/usr/bin/llvm-link-18 "$IR/drv_$N.bc" $files -o "$IR/ul_$N.bc" 2>/dev/null
/usr/bin/opt-18 -passes='function(mem2reg)' "$IR/ul_$N.bc" -o "$IR/unit_$N.bc"
rm -f "$IR/ul_$N.bc" "$IR/drv_$N.bc"
