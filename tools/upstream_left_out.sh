#!/bin/bash
# Development helper: runs the upstream tests which the baseline leaves out, with stand-ins for doctest-util.
R=${1:-/repo}; D=$(mktemp -d /tmp/uplo.XXXXXX); H=$(cd "$(dirname "$0")" && pwd)
for t in expected-11 generator-20 pmr_allocator-17 pmr_allocator-20 small_vector-11; do
  std=${t##*-}
  g++ -std=c++$std -g -fsanitize=address,undefined -DDOCTEST_CONFIG_USE_STD_HEADERS -DDOCTEST_CONFIG_IMPLEMENT_WITH_MAIN \
     -I$H/shims -I$R/include $R/test/t-$t.cpp -o $D/$t -pthread 2> $D/$t.log || { echo "$t: compile failed"; head -20 $D/$t.log; continue; }
  echo "$t: $($D/$t 2>&1 | tail -5 | tr '\n' ' ')"
done
rm -rf "$D"
