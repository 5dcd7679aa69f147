#!/bin/bash
# check.sh ID quick|thorough [more options]: builds the check of one property from /repo's working tree and runs it.
V=$(cd "$(dirname "$0")" && pwd)
ID=$1; TIER=${2:-quick}; shift 2
n=$(echo "$ID" | tr A-Z a-z)
mode=asan; [ "$ID" = C27 ] && mode=tsan; [ "$ID" = C29 ] && mode=wide
P=$("$V/build.sh" "$n" $mode) || exit 2
export ASAN_OPTIONS=detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:handle_abort=1
export UBSAN_OPTIONS=print_stacktrace=0
export TSAN_OPTIONS=halt_on_error=1:exitcode=66
mkdir -p "$V/evidence" "$V/replay"
exec "$P" --tier "$TIER" --evidence "$V/evidence/$ID.json" --out "$V/replay" "$@"
