#!/bin/bash
# usage: check.sh ID [quick|thorough] | check.sh setup
# Builds the analyzer from the committed sources (offline) and decides one property of /repo.
cd "$(dirname "$0")" || exit 2
V=$PWD
export HOME="${HOME:-/root}"
[ -x /opt/veriftools/go1.27.3/bin/go ] && export PATH="/opt/veriftools/go1.27.3/bin:$PATH"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off GONOSUMDB='*' CGO_ENABLED=0
unset GOOS GOARCH
mkdir -p "$V/bin"
(cd "$V/tool" && go build -o "$V/bin/verifcheck" ./cmd/verifcheck) || { echo "analyzer does not build" >&2; exit 2; }
[ "$1" = setup ] && exit 0
tier=${2:-${VERIF_TIER:-quick}}
exec "$V/bin/verifcheck" -repo "${VERIF_REPO:-/repo}" -verif "$V" -tier "$tier" "$1"
