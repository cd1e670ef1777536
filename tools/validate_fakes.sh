#!/bin/bash
# validate_fakes.sh [go test arguments]: runs the repository's own test suites, those for Redis and MongoDB included, against
# the fake servers (on the ports which these tests use). It works on a copy of /repo, as the mocks have to be generated.
set -e
cd "$(dirname "$0")/.."
verif=$PWD
. /opt/vp/env.sh
cd "$verif"
w=$(mktemp -d /tmp/validate.XXXXXX)
trap '[ -n "$pid" ] && kill $pid; rm -rf "$w"' EXIT
export GONOSUMDB='*' GOSUMDB=off GOTOOLCHAIN=local GOPROXY=off
# mockgen, from the module cache
mkdir "$w/mg"
cat > "$w/mg/go.mod" <<'M'
module mg
go 1.26.0
require (
 go.uber.org/mock v0.6.0
 golang.org/x/mod v0.42.0
 golang.org/x/tools v0.52.0
 golang.org/x/sync v0.24.0
)
M
(cd "$w/mg"; GOFLAGS=-mod=mod go build -o "$w/bin/mockgen" go.uber.org/mock/mockgen)
cp -a /repo "$w/rc"
bin/modfile.sh "$w/mod" "$verif/stubs"
for f in audit/audit.go queue/cache/cache.go queue/storage/storage.go queue/queue.go; do
  (cd "$w/rc/internal/$(dirname $f)"; d=$(basename $f .go)
   GOFLAGS="-mod=mod -modfile=$w/mod/go.mod" "$w/bin/mockgen" -destination="$w/rc/internal/mocks/mock_$d.go" -package=mocks -source=$d.go)
done
# the fakes
python3 - harness /repo "$w/overlay.json" <<'P'
import json,os,sys
src,repo,dst=sys.argv[1:]
src=os.path.abspath(src)
rep={}
for d,_,fs in os.walk(src):
    for f in fs:
        if f.endswith('.go'):
            p=os.path.join(d,f); rep[os.path.join(repo,'internal/zzverif',os.path.relpath(p,src))]=p
json.dump({"Replace":rep},open(dst,'w'))
P
export GOFLAGS="-mod=mod -modfile=$w/mod/go.mod"
(cd /repo; go build -overlay "$w/overlay.json" -o "$w/bin/fakes" github.com/takenet/deckard/internal/zzverif/fakes/cmd)
"$w/bin/fakes" > "$w/fakes.log" & pid=$!
for i in $(seq 50); do grep -q ready "$w/fakes.log" && break; sleep 0.1; done
cat "$w/fakes.log"
cd "$w/rc"
go test -p 1 -count=1 "${@:-./internal/...}" 2>&1 | grep -v "no test files"
