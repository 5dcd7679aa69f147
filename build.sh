#!/bin/bash
# build.sh NAME [asan|tsan|wide]: builds the check NAME from $REPO's working tree and prints the path of the program.
# Objects are kept under build/<hash of everything that goes in>, so an unchanged tree is built once.
set -u
V=$(cd "$(dirname "$0")" && pwd)
REPO=${REPO:-/repo}
NAME=$1
MODE=${2:-asan}
H=$( (cd "$REPO" && find tiny/src tiny/include -type f | LC_ALL=C sort | xargs sha256sum; cd "$V" && sha256sum harness/*.h harness/*.cpp harness/*.c build.sh; echo "$MODE") | sha256sum | cut -c1-16)
B=$V/build/$MODE-$H
mkdir -p "$B" || exit 3
exec 9>"$B/lock"; flock 9
if [ "$MODE" = tsan ]; then
  SAN="-fsanitize=thread"; LSAN="-fsanitize=thread"
else
  SAN="-fsanitize=address,undefined -fno-sanitize=nonnull-attribute,pointer-overflow,signed-integer-overflow,shift,function,float-cast-overflow,integer-divide-by-zero -fno-sanitize-recover=undefined"
  LSAN="-fsanitize=address,undefined"
fi
DEF=""; [ "$MODE" = wide ] && DEF="-DTINY_THREAD_STACK_SIZE=8192"
CF="$DEF -O1 -gline-tables-only -fno-omit-frame-pointer -D_GNU_SOURCE -w -I$REPO/tiny/include"
XF="$DEF -std=c++17 -O1 -gline-tables-only -w -I$REPO/tiny/include -I$V/harness"
fail=0; pids=()
for f in "$REPO"/tiny/src/*.c; do
  o=$B/lib_$(basename "$f" .c).o
  [ -f "$o" ] || { clang $CF $SAN -c "$f" -o "$o.tmp" 2>"$o.log" && mv "$o.tmp" "$o" & pids+=($!); }
done
for f in "$V"/harness/shim.c; do
  o=$B/shim.o
  [ -f "$o" ] || { clang $CF -c "$f" -o "$o.tmp" 2>"$o.log" && mv "$o.tmp" "$o" & pids+=($!); }
done
XS=""; [ "$MODE" = tsan ] && XS="-fsanitize=thread"
for f in pbt lang_gen lang_run "$NAME"; do
  o=$B/$f.o
  [ -f "$o" ] || { clang++ $XF $XS -c "$V/harness/$f.cpp" -o "$o.tmp" 2>"$o.log" && mv "$o.tmp" "$o" & pids+=($!); }
done
for p in "${pids[@]}"; do wait "$p" || fail=1; done
if [ $fail = 1 ]; then cat "$B"/*.log >&2; echo "build of $NAME failed" >&2; exit 3; fi
LIB=$B/lib_
if [ "$NAME" = c11 ]; then
  # calls of the C allocator made by the library itself are counted by the check
  LIB=$B/libw_
  for f in "$REPO"/tiny/src/*.c; do
    n=$(basename "$f" .c)
    [ -f "$B/libw_$n.o" ] || { objcopy $(for s in malloc calloc realloc free strdup strndup reallocarray aligned_alloc posix_memalign; do echo "--redefine-sym $s=vf_$s"; done) "$B/lib_$n.o" "$B/libw_$n.o.tmp" && mv "$B/libw_$n.o.tmp" "$B/libw_$n.o" || exit 3; }
  done
fi
if [ ! -x "$B/$NAME" ]; then
  clang++ $LSAN -o "$B/$NAME.tmp" "$B/$NAME.o" "$B/pbt.o" "$B/lang_gen.o" "$B/lang_run.o" "$B/shim.o" "$LIB"*.o -lm -lpthread 2>"$B/link.log" || { cat "$B/link.log" >&2; exit 3; }
  mv "$B/$NAME.tmp" "$B/$NAME"
fi
echo "$B/$NAME"
