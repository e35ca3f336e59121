#!/bin/bash
# usage: sanitize.sh build | quick | thorough
# C21: the monitored workloads under AddressSanitizer, ThreadSanitizer, MemorySanitizer and Miri.
cd "$(dirname "$0")" || exit 2
. ./env.sh
mkdir -p evidence
exec 9>evidence/.lock-c21
flock 9
for d in address thread memory miri; do
    forget "harness/target-$d"
    forget "harness/target-$d/x86_64-unknown-linux-gnu"
done
exec python3 tools/sanitize.py "$@"
