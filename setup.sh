#!/bin/sh
# the checks need only the pre-installed tools; fail early when one is missing
set -e
for t in goto-cc goto-instrument cbmc gcc objcopy python3; do command -v $t >/dev/null || { echo "missing $t"; exit 1; }; done
mkdir -p "$(dirname "$0")/evidence"
echo ok
