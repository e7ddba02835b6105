#!/bin/bash
# For each "fixed:" entry: undo that commit in a scratch copy and show that the check reports it.
cd "$(dirname "$0")/.."
mkdir -p /tmp/rev
grep '^fixed:' known-findings.txt | while read -r _ prop commit rest; do
  p=${prop#property=}
  if [ $# -gt 0 ] && [[ " $* " != *" $p-$commit "* ]]; then continue; fi
  w=/tmp/rev/$p-$commit
  rm -rf "/tmp/rev/$p-$commit"
  cp -a /repo $w
  if ! (cd $w && git revert -n $commit >/dev/null 2>&1); then
    echo "$p $commit CONFLICT"; rm -rf "/tmp/rev/$p-$commit"; continue
  fi
  out=$(BP_REPO=$w VERIF_SEED=1 ./check $p 2>&1 </dev/null)
  echo "$p $commit $(echo "$out" | grep -c '^VIOLATION') $(echo "$out" | grep ' class ' | head -1 | cut -c1-150)"
  rm -rf "/tmp/rev/$p-$commit"
done
