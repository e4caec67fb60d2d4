#!/bin/bash
# transfer.sh PROP : take the pending commits of /tmp/fx (messages "(Cxx) text") one by one to /repo with fix.sh
cd /verif
base=$(git -C /repo log -1 --format=%T)
start=$(git -C /tmp/fx log --format='%h %T' | awk -v t=$base '$2==t{print $1; exit}')
[ -n "$start" ] || { echo "no common tree"; exit 1; }
for c in $(git -C /tmp/fx log --reverse --format=%h $start..); do
 m=$(git -C /tmp/fx log -1 --format=%s $c); p=$(echo "$m" | sed -n 's/^(\(C[0-9]*\)).*/\1/p'); m=${m#(C??) }
 git -C /tmp/fx show $c | git -C /repo apply || exit 1
 tools/fix.sh $p "$m" 2>&1 | tail -2
done
git -C /repo status --short
