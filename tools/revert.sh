#!/bin/bash
# revert.sh COMMIT CHECK...: run checks against a scratch copy of /repo with one commit undone
c=$1; shift
d=$(mktemp -d /tmp/revert-XXXXXX)
git -C /repo archive HEAD | tar -x -C "$d"
if ! git -C /repo diff "$c~1" "$c" | (cd "$d" && patch -R -p1 --no-backup-if-mismatch -s); then
  echo "REVERT-CONFLICT $c"; rm -rf "$d"; exit 3
fi
for p in "$@"; do VERIF_REPO=$d python3-vt /verif/check.py "$p" quick; done
rm -rf "$d"
