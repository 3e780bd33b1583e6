#!/bin/bash
# check.sh PROPERTY quick|thorough [one INDEX | show INDEX]
# Builds the harness from /repo's current tree and decides one property.
HERE=$(cd "$(dirname "$0")" && pwd)
export VERIF_DIR=$HERE
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
T=$(mktemp -d /tmp/vhb.XXXXXX) || exit 2
trap 'rm -rf "$T"' EXIT
if ! bash "$HERE/build.sh" "$T/vh" > "$T/log" 2>&1; then
  cat "$T/log"
  echo "the harness does not build against /repo"
  exit 2
fi
# the binaries of the project that some checks run
tool() { (cd "${REPO:-/repo}" && go build -o "$T/$1" "./cmd/$2") > "$T/log" 2>&1 || { cat "$T/log"; echo "cmd/$2 does not build"; exit 2; }; }
case $1 in
C25) tool lsp autocomplete ;;
C29) tool candice build; tool compiler compiler ;;
esac
export TMPDIR=$T
TIER=${2:-${VERIF_TIER:-quick}}
if [ -n "$3" ]; then
  "$T/vh" "$3" "$1" "$TIER" "$4"
else
  "$T/vh" check "$1" "$TIER"
fi
