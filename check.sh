#!/bin/bash
# usage: check.sh <property> <quick|thorough> [psmon arguments]
# Rebuilds the harness against /repo's working tree, runs the property's scenarios, writes evidence/<property>.json.
# exit 0: held on everything explored; 1: VIOLATION line printed; other: no verdict.
cd "$(dirname "$0")" || exit 2
. ./env.sh
id=$1 tier=${2:-${VERIF_TIER:-quick}}
shift 2 2>/dev/null
mkdir -p evidence
rm -f "evidence/$id.json"
if [ "$id" = C21 ]; then
    exec ./sanitize.sh "$tier" "$@"
fi
build_harness || exit 2
exec harness/target/debug/psmon "$id" --tier "$tier" --seed "${VERIF_SEED:-1}" --evidence "evidence/$id.json" --findings known_findings.txt "$@"
