#!/bin/bash
# Builds everything once so that the checks start warm. Every check can also build from scratch.
cd "$(dirname "$0")" || exit 2
. ./env.sh
build_harness || exit 2
[ -x ./sanitize.sh ] && ./sanitize.sh build
exit 0
