#!/bin/bash
# tryseed.sh ID [check...]: confirms a planted bug in a scratch copy of /repo (applies, builds, passes the stable tests, demo tells
# them apart) and runs the given checks against the copy.
d=$(cd "$(dirname "$0")/.." && pwd)
s=$d/seeded/$1; shift
t=$(mktemp -d /tmp/tryseed.XXXX)
trap 'rm -rf "$t"' EXIT
cp -a /repo "$t/repo"
cd "$t/repo"
(bash "$s/demo.sh" > "$t/o" 2>&1); echo "demo unchanged: $?"
git apply "$s/patch.diff" || exit 1
(bash "$s/demo.sh" > "$t/o" 2>&1); echo "demo patched: $? $(tail -1 "$t/o" | cut -c1-200)"
. /opt/vp/env.sh; cd "$t/repo"
go build ./internal/config ./internal/dtime ./internal/queue/... . 2>&1 | grep -v "no required module\|go get\|cannot find\|module lookup disabled\|downloading" | head -5
go test . ./examples/... ./internal/config ./internal/dtime ./internal/project ./internal/queue/configuration ./internal/queue/message ./internal/queue/pool ./internal/queue/score ./internal/queue/utils 2>&1 | grep -v "^ok\|no test files\|module lookup disabled\|downloading\|no required module\|^FAIL$\|setup failed" | head
for c in "$@"; do
  out=$(REPO=$t/repo python3 "$d/bin/check.py" $c 2>&1); echo "check $c: $? $(echo "$out" | grep -v KNOWN | tail -2 | cut -c1-300)"
done
