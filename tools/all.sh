#!/bin/bash
# runs every registered check (tier $1, default quick) and prints one line each
cd "$(dirname "$0")/.."
for f in sa/props/c[0-9][0-9].py; do
  id=$(basename "$f" .py | tr c C)
  [ -n "$2" ] && [[ ! " $2 " =~ " $id " ]] && continue
  s=$(date +%s)
  timeout 900 python3 -m sa.run "$id" --tier "${1:-quick}" > /tmp/out_$id.txt 2>&1; rc=$?
  echo "$id rc=$rc $(( $(date +%s) - s ))s $(grep obligations /tmp/out_$id.txt | head -1 | cut -d: -f2)"
  grep -E "^(VIOLATION|UNDECIDED|KNOWN)" /tmp/out_$id.txt | head -${SHOW:-3}
done
