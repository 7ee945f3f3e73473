#!/bin/bash
# Runs every check; prints one line each.
cd "$(dirname "$0")/.."
for f in props/p[0-9][0-9]_*.py; do
  id=P$(basename $f | cut -c2-3)
  s=$(date +%s)
  SX_STRICT=1 timeout 1800 python3-vt check.py $id "$@" > /tmp/all.$id.log 2>&1
  echo "$id rc=$? $(( $(date +%s) - s ))s $(grep -c 'not clean' /tmp/all.$id.log)"
done
