#!/bin/bash
# run.sh PROPERTY TIER: decides one property on /repo's current tree
cd "$(dirname "$0")" || exit 2
bash build.sh >&2 || exit 2
exec python3 lib/check.py "$1" "${2:-quick}"
