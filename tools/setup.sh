#!/bin/sh
# nothing to build: verify that the tools the checks need are present
set -e
for t in goto-cc goto-instrument cbmc gcc bison python3; do command -v $t >/dev/null || { echo "missing $t"; exit 1; }; done
mkdir -p evidence
