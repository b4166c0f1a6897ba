#!/bin/bash
# Replays some of the findings of known_findings.txt on the original tree (8fec341) and on /repo's HEAD.
# Not a check: an illustration that the repaired defects are real. Works in a scratch directory only.
here=$(cd "$(dirname "$0")" && pwd)
for rev in 8fec341 HEAD; do
  w=$(mktemp -d)
  git -C /repo archive "$rev" | tar -x -C "$w"
  for f in $(find "$w/src" -name '*.cpp'); do echo "$f"; done > "$w/list"
  mkdir "$w/o"
  i=0; while read -r f; do i=$((i+1)); echo "$f $w/o/$i.o"; done < "$w/list" |
    xargs -P 8 -L 1 sh -c 'g++ -std=c++20 -O1 -w -include cmath -include stdexcept -I'"$w"'/include -I/usr/include/eigen3 -c "$0" -o "$1"'
  g++ -std=c++20 -O1 -w -include cmath -include stdexcept -I"$w/include" -I/usr/include/eigen3 "$here/replay.cpp" "$w"/o/*.o -lboost_random -lpthread -o "$w/replay"
  echo "== $rev"; "$w/replay"
  rm -rf "$w"
done
