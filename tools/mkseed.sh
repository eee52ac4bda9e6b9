#!/bin/bash
# mkseed.sh ID FILE PYTHON-EXPR-FILE : makes seeded/ID/patch.diff from an edit script run on a scratch copy of /repo.
# The edit script gets the file's text in s and must change it.
set -e
id=$1; file=$2; edit=$3
w=$(mktemp -d /tmp/mkseed.XXXXXX)
git -C /repo worktree add -q --detach "$w/r" HEAD
python3 - "$w/r/$file" "$edit" <<'P'
import sys
p, e = sys.argv[1:]
s = open(p).read(); o = s
ns = {"s": s}
exec(open(e).read(), ns)
assert ns["s"] != o, "no change"
open(p, "w").write(ns["s"])
P
mkdir -p /verif/seeded/$id
git -C "$w/r" diff > /verif/seeded/$id/patch.diff
git -C /repo worktree remove --force "$w/r"
rmdir "$w"
cat /verif/seeded/$id/patch.diff
