#!/bin/bash
# Builds every harness once, so that single checks only recompile what changed.
V=$(cd "$(dirname "$0")" && pwd); cd "$V" || exit 2
for c in $(awk '{print $2}' tools/checks.txt | sort -u); do ./run.sh --build "$c" || exit 2; done
