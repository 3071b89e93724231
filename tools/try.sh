#!/bin/bash
# try.sh <patch> <check>... : run checks against a scratch copy of /repo with the patch applied
set -e
D=$(mktemp -d /tmp/try-XXXXXX)
git -C /repo archive HEAD | tar -x -C "$D"
(cd "$D" && patch -p1 -s --no-backup-if-mismatch < "$1")
shift
for c in "$@"; do VERIF_REPO=$D python3 /verif/run.py $c 2>&1 | grep -E "VIOLATION|ERROR|NOT-EXPL|: .* \||wall=" | cut -c1-300 | head -8 || true; done
rm -rf "$D"
