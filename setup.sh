#!/bin/bash
# Builds the framework once; every check rebuilds whatever changed in /repo by itself.
cd "$(dirname "$0")" || exit 1
for f in harness/c[0-9][0-9].cpp; do
  n=$(basename "$f" .cpp); m=asan; [ "$n" = c27 ] && m=tsan; [ "$n" = c29 ] && m=wide
  ./build.sh "$n" $m >/dev/null || exit 1
done
