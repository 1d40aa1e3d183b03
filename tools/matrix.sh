#!/bin/bash
# tools/matrix.sh [ID...]: applies each planted change to /repo in turn, runs the check of its property, restores /repo.
cd "$(dirname "$0")/.." || exit 2
[ -z "$(git -C /repo status --porcelain --untracked-files=no)" ] || { echo "/repo is not clean"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
[ $# -gt 0 ] || set -- $(ls seeded)
for id; do
    prop=${PROP:-$(node -p "require('./seeded/$id/meta.json').property")}
    git -C /repo apply "$PWD/seeded/$id/patch.diff" || { echo "$id: does not apply"; continue; }
    out=$(./check.sh "$prop" 2>&1); rc=$?
    git -C /repo checkout -q -- .
    printf '%-28s %s exit=%s %s | %s\n' "$id" "$prop" "$rc" "$(grep -a -c "^VIOLATION property=$prop " <<< "$out")" "$(grep -a '^violation at' <<< "$out" | cut -c1-150)"
done
