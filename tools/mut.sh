#!/bin/bash
# mut.sh <patch> <ID> [tier]: run one check against a scratch copy of /repo with the patch applied
set -e
D=$(mktemp -d /tmp/mutXXXXXX)
cp -a /repo/. "$D/"
git -C "$D" apply "$1"
VERIF_REPO="$D" "$(dirname "$0")/../run.sh" "$2" "${3:-quick}" || echo "exit $?"
rm -rf "$D"
