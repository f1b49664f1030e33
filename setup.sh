#!/bin/bash
# Builds every harness once so that the checks start from warm objects.
cd "$(dirname "$0")"
mkdir -p build evidence replays
for f in checks/[A-Z][0-9][0-9]_*.cpp; do id=$(basename "$f"); ./check.sh "${id%%_*}" --build-only || exit 1; done
