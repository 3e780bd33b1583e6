#!/bin/bash
# Checks that the harness builds and warms the build cache.
HERE=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d /tmp/vhs.XXXXXX) || exit 1
trap 'rm -rf "$T"' EXIT
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
bash "$HERE/build.sh" "$T/vh" || exit 1
mkdir -p "$HERE/evidence" "$HERE/replay"
(cd "${REPO:-/repo}" && go build -o "$T/" ./cmd/autocomplete ./cmd/build ./cmd/compiler) || exit 1
