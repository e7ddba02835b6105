#!/bin/sh
# all quick checks against a scratch copy with behaviour-preserving edits: refac.sh DIR [ids]
W=$1; shift
cd /verif
for p in ${@:-C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20}; do
  BP_REPO=$W VERIF_SEED=${VERIF_SEED:-1} ./check $p > /tmp/refac.out 2>&1; rc=$?
  echo "$p exit $rc $(grep -a ' class \|ERROR' /tmp/refac.out | head -1 | cut -c1-400)"
done
