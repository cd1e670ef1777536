#!/bin/bash
# build.sh OUTDIR [race|server]: builds the harness from /repo's working tree into OUTDIR/harness (or OUTDIR/harness-race),
# or the server with the clock of the checks into OUTDIR/deckard.
set -e
here=$(cd "$(dirname "$0")/.." && pwd)
out=$1; repo=${REPO:-/repo}
mkdir -p "$out"
REPO=$repo "$here/bin/modfile.sh" "$out/mod" "$here/stubs"
python3 - "$here" "$repo" "$out/overlay.json" <<'P'
import json,os,sys
here,repo,dst=sys.argv[1:]
src=os.path.join(here,'harness')
rep={os.path.join(repo,'internal/cmd/deckard/zz_verif_clock.go'):os.path.join(here,'server/clock.go')}
for d,_,fs in os.walk(src):
    for f in fs:
        if f.endswith(('.go','.lua')):
            p=os.path.join(d,f)
            rep[os.path.join(repo,'internal/zzverif',os.path.relpath(p,src))]=p
json.dump({"Replace":rep},open(dst,'w'))
P
export GOFLAGS="-mod=mod -modfile=$out/mod/go.mod" GONOSUMDB='*' GOSUMDB=off GOTOOLCHAIN=local GOPROXY=off
cd "$repo"
if [ "$2" = server ]; then
  exec go build -overlay "$out/overlay.json" -o "$out/deckard" github.com/takenet/deckard/internal/cmd/deckard
fi
race=
[ "$2" = race ] && race="-race"
go build $race -overlay "$out/overlay.json" -o "$out/harness${2:+-$2}" github.com/takenet/deckard/internal/zzverif
