#!/bin/bash
# builds all harnesses from /repo's working tree; checks rebuild what changed
set -e
cd "$(dirname "$0")"
ids=(); for f in harness/C??.cpp; do ids+=("$(basename "$f" .cpp)"); done
bash tools/build.sh -c "${ids[@]}"
