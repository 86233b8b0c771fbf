#!/bin/bash
# build.sh [asan]: compile the simulator with the sources of /repo (working tree) into /verif/build/<variant>/zdbsim
set -e
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=${ZDB_REPO:-/repo}
VAR=${1:-plain}
OUT=${ZDBSIM_OUT:-$HERE/../build}/$VAR
mkdir -p "$OUT/obj"
exec 9>"$OUT/.lock"; flock 9
export LC_ALL=C
CC=gcc; CXX=g++
CF="-std=gnu11 -O1 -g -w -fno-pie -fno-builtin -fno-common -U_FORTIFY_SOURCE -D_FORTIFY_SOURCE=0 -fstack-protector-strong -fno-omit-frame-pointer -include $HERE/simdefs.h"
[ "$(uname -m)" = x86_64 ] && CF="$CF -msse4.2"
CXF="-std=c++17 -O1 -g -w -fno-pie"
LF="-no-pie"
if [ "$VAR" = asan ]; then CF="$CF -fsanitize=address -fno-stack-protector"; CXF="$CXF -fsanitize=address -DSIM_ASAN"; LF="$LF -fsanitize=address"
else CF="$CF -ftrivial-auto-var-init=pattern"; fi
# seam: libc entry points replaced in the code under test
if [ ! -s "$OUT/redefine" ] || [ "$HERE/seam.txt" -nt "$OUT/redefine" ]; then
  grep -v '^#' "$HERE/seam.txt" | tr ' ' '\n' | grep . | while read s; do echo "$s sim_$s"; done > "$OUT/redefine"
fi
compile() { # module files...
  local m=$1; shift; local d="$OUT/obj/$m"; rm -rf "$d"; mkdir -p "$d"
  local i=0
  for f in "$@"; do i=$((i+1)); echo "$CC $CF $INC -Dmain=${m}_main -c $f -o $d/$i.o"; done
  [ $m = lib ] || echo "$CC $CF $INC -DREALMAIN=${m}_main -DSTARTSYM=${m}_start -DPREOPENSYM=${m}_preopen -c $HERE/shim.c -o $d/0.o"
}
link() { local m=$1 d="$OUT/obj/$1"
  ld -r -o "$d/all.o" $d/[0-9]*.o $OUT/obj/lib/[0-9]*.o
  objcopy --redefine-syms="$OUT/redefine" "$d/all.o"
  nm -u "$d/all.o" | awk '{print $2}' | sort -u > "$d/undef"
  objcopy --keep-global-symbol=${m}_start --keep-global-symbol=${m}_preopen "$d/all.o"
  # writable sections get a name of their own, so that the simulator can save and restore them
  objcopy --rename-section .data=sd_$m --set-section-flags .bss=alloc,load,contents,data "$d/all.o"
  objcopy --rename-section .bss=sb_$m,alloc,load,contents,data "$d/all.o"
}
INC="-I$REPO/libzdb -I$REPO/zdbd"
JOBS=$(
  compile lib $REPO/libzdb/*.c
  compile zdbd $REPO/zdbd/*.c
  compile zlib $HERE/libdrv.c
  compile rebuild $REPO/tools/index-rebuild/*.c
  compile compact $REPO/tools/quick-compaction/*.c
  compile icheck $REPO/tools/integrity-check/*.c
  compile idump $REPO/tools/index-dump/*.c
  compile nsdump $REPO/tools/namespace-dump/*.c
  compile nsedit $REPO/tools/namespace-editor/*.c
  compile dbsync $REPO/utilities/db-sync/*.c $HERE/hiredis.c
  compile dbrepl $REPO/utilities/db-replicate/*.c $HERE/hiredis.c
  for f in $HERE/*.cpp; do o="$OUT/obj/$(basename $f .cpp).o"
    if [ ! -s $o ] || [ -n "$(find $HERE -newer $o \( -name '*.h' -o -name "$(basename $f)" -o -name build.sh \))" ]; then echo "$CXX $CXF -c $f -o $o"; fi; done
)
if ! echo "$JOBS" | xargs -P 8 -I{} sh -c '{}' ; then echo "build failed" >&2; exit 2; fi
MODS="zdbd zlib rebuild compact icheck nsedit idump nsdump dbsync dbrepl"
P=""; for m in $MODS; do link $m & P="$P $!"; done
for p in $P; do wait $p || { echo 'link failed' >&2; exit 2; }; done
DS=$(awk '{print $2}' $OUT/redefine | grep '64$' | sed 's/\(.*\)64$/-Wl,--defsym=\164=\1/' | tr '\n' ' ')
cat $OUT/obj/*/undef | sort -u | grep -v '^sim_' > "$OUT/undef"
$CXX $LF $DS -o "$OUT/zdbsim.tmp" $OUT/obj/*.o $(for m in $MODS; do echo $OUT/obj/$m/all.o; done)
mv "$OUT/zdbsim.tmp" "$OUT/zdbsim"
grep -v "^__asan" "$OUT/undef" > "$OUT/undef2" ; grep -vxF -f <(tr ' ' '\n' < "$HERE/pure.txt") "$OUT/undef2" > "$OUT/escapes" || true
if [ -s "$OUT/escapes" ]; then echo "note: calls that reach the real libc: $(tr '\n' ' ' < "$OUT/escapes")" >&2; fi
