#!/bin/bash
# Builds the simulation harness from /repo's current working tree.
set -e
V="$(cd "$(dirname "$0")" && pwd)"
export HOME="${HOME:-/root}"
export PATH="/usr/local/bin:/usr/local/sbin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GO111MODULE=on GOWORK=off CGO_ENABLED=0
REPO="${VERIF_REPO:-/repo}"
B="${VERIF_BUILD:-$V/sim/.build}"
mkdir -p "$B"
exec 9>"$B/lock"
flock 9
cd "$V/sim/tools/simbuild"
go build -o "$B/simbuild" . 9>&-
"$B/simbuild" "$(go env GOROOT)" "$V/sim/rt" "$(go env GOMODCACHE)" "$B" "$REPO" 9>&-
cd "$V/sim"
MOD="$B/go.mod"
sed -e "s#=> /repo#=> $REPO#" -e "s#=> ./.build/#=> $B/#" go.mod > "$MOD.new"
cmp -s "$MOD.new" "$MOD" 2>/dev/null || mv "$MOD.new" "$MOD"
cp go.sum "$B/go.sum"
go build -modfile "$MOD" -overlay "$B/overlay.json" -o "$B/sim.new" . 9>&-
mv "$B/sim.new" "$B/sim"
