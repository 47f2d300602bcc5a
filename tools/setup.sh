#!/bin/bash
# Nothing to install: builds what exists so that the first check is faster.
cd "$(dirname "$0")/.."
for c in harness/*/; do bash tools/build.sh "$(basename "$c")" || true; done
exit 0
