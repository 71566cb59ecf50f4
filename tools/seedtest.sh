#!/bin/bash
# seedtest.sh ID [check...]: try a planted bug in a scratch copy: demo on the
# clean and on the patched tree, then the given checks against the patched tree.
set -u
V=$(cd "$(dirname "$0")/.." && pwd); ID=$1; shift
W=$(mktemp -d /tmp/seed-XXXX); trap 'rm -rf "$W"' EXIT
git -C /repo archive HEAD | (mkdir "$W/c" && tar x -C "$W/c"); cp -r "$W/c" "$W/p"; cp -r "$V/seeded/$ID" "$W/d"
(cd "$W/p" && git init -q . && git apply "$W/d/patch.diff") || { echo "patch does not apply"; exit 1; }
rm -f "$W/d/patch.diff" "$W/d/meta.json"
(cd "$W/c" && bash "$W/d/demo.sh" >"$W/clean.log" 2>&1); echo "demo clean: $?"; tail -3 "$W/clean.log"
(cd "$W/p" && bash "$W/d/demo.sh" >"$W/patched.log" 2>&1); echo "demo patched: $?"; tail -3 "$W/patched.log"
for c in "$@"; do (cd "$V" && NTT_REPO="$W/p" timeout 900 python3 check.py $c 2>&1 | cut -c1-400 | tail -6; echo "check $c exit ${PIPESTATUS[0]}"); done
