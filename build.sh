#!/bin/bash
# Builds the harness against /repo's current working tree.  Usage: build.sh OUT
# The harness sources are laid over /repo/cmd/zz_verif with go's -overlay, so
# nothing is written in /repo.
set -e
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=${REPO:-/repo}
OUT=$1
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
OV=$(mktemp /tmp/vhov.XXXXXX)
trap 'rm -f "$OV"' EXIT
{
  echo '{"Replace": {'
  first=1
  for f in "$HERE"/h/*.go; do
    [ $first = 1 ] || echo ','
    first=0
    printf '"%s/cmd/zz_verif/%s": "%s"' "$REPO" "$(basename "$f")" "$f"
  done
  echo '}}'
} > "$OV"
cd "$REPO"
go build -overlay "$OV" -o "$OUT" ./cmd/zz_verif
