#!/bin/bash
# Checks that the harness can be built offline. Every check builds it again from /repo's working tree.
set -e
here=$(cd "$(dirname "$0")/.." && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
"$here/bin/build.sh" "$t"
"$t/harness" -prop list >/dev/null
echo "the harness builds"
