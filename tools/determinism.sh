#!/bin/bash
# tools/determinism.sh [N] [SEED...]: executes the first N runs of every property in two fresh processes, once forwards
# and once backwards, all properties at the same time (so under different load), and compares the complete traces.
cd "$(dirname "$0")/.." || exit 2
n=${1:-200}; shift
dir=$(mktemp -d) || exit 2
trap 'rm -rf "$dir"' EXIT
bash build.sh > "$dir/build" || exit 2
bad=0 total=0
for seed in "${@:-1}"; do
    for id in $(node -p 'require("./MANIFEST.json").checks.map(c => c.property).join(" ")'); do
        for o in fwd rev; do echo "$id $o $seed"; done
    done | xargs -P 8 -L 1 sh -c 'VERIF_SEED=$2 ./check.sh --det $0 '"$n"' $1 > '"$dir"'/$0.$1.$2 2> '"$dir"'/$0.$1.$2.err'
    for f in "$dir"/*.fwd."$seed"; do
        id=$(basename "$f" .fwd."$seed")
        d=$(diff "$f" "$dir/$id.rev.$seed" | grep -c '^<')
        total=$((total + $(wc -l < "$f")))
        [ "$(wc -l < "$f")" = "$n" ] || { echo "$id seed $seed: incomplete"; bad=$((bad + 1)); }
        [ "$d" = 0 ] || { echo "$id seed $seed: $d of $n runs differ"; bad=$((bad + d)); }
    done
done
echo "$total runs executed twice, $bad different"
[ "$bad" = 0 ]
