#!/bin/bash
# Builds every harness variant from /repo's working tree (checks rebuild whatever changed since).
cd "$(dirname "$0")/.." || exit 1
for v in $(grep -hoE '^SUITE(_B)?\("C[0-9]+", *\w+, *"\w+"' harness/*.cc | grep -oE '"\w+"$' | tr -d '"' | sort -u); do
  python3 harness/build.py $v || exit 1
done
