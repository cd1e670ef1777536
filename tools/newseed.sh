#!/bin/bash
# newseed.sh ID [fakes]: gives /verif/seeded/ID its demo.sh and the offline stubs (and fake servers) it needs; main.go, patch.diff and
# meta.json are written by hand.
set -e
d=$(cd "$(dirname "$0")/.." && pwd)
s=$d/seeded/$1
mkdir -p "$s"
rm -rf "$s/stubs"
cp -r "$d/stubs" "$s/stubs"
cp "$d/bin/modfile.sh" "$s/modfile.sh"
if [ "$2" = fakes ]; then
  rm -rf "$s/fakes"; mkdir "$s/fakes"
  cp -r "$d/harness/fakeredis" "$d/harness/fakemongo" "$s/fakes/"
  for f in "$s"/fakes/*/*.go; do mv "$f" "$f.txt"; done
fi
cat > "$s/demo.sh" <<'D'
#!/bin/bash
# Builds main.go (beside this file) inside of the deckard module of the current directory and runs it: exit 0 if the behaviour is right.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
cd "$repo" || exit 2
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
REPO=$repo bash "$here/modfile.sh" "$t/mod" "$here/stubs" || exit 2
{
  echo "{\"Replace\":{\"$repo/internal/zzdemo/main.go\":\"$here/main.go.txt\""
  for f in "$here"/fakes/*/*.go.txt; do
    [ -f "$f" ] && n=${f#$here/fakes/} && echo ",\"$repo/internal/zzdemo/${n%.txt}\":\"$f\""
  done
  echo "}}"
} > "$t/overlay.json"
export GOFLAGS="-mod=mod -modfile=$t/mod/go.mod" GONOSUMDB='*' GOSUMDB=off GOTOOLCHAIN=local GOPROXY=off
go build $RACE -overlay "$t/overlay.json" -o "$t/demo" github.com/takenet/deckard/internal/zzdemo || exit 2
cd "$t"
timeout 120 "$t/demo"
D
