#!/bin/bash
# determinism.sh [RUNS] [SEEDS]: compares the hashes of whole executions between repetitions and worker counts.
cd "$(dirname "$0")/.." || exit 2
n=${1:-1500}; seeds=${2:-3}; F=./sim/target/release/figsim; bad=0; d=$(mktemp -d)
for p in ${PROPS:-$(python3 -c "import json;[print(c[\"property\"]) for c in json.load(open(\"MANIFEST.json\"))[\"checks\"]]")}; do
  for s in $(seq 1 "$seeds"); do
    for w in 1 3 8; do VERIF_SEED=$s "$F" hashes "$p" "$n" $w > "$d/$w" || bad=1; done
    VERIF_SEED=$s "$F" hashes "$p" "$n" 8 > "$d/again"
    for w in 3 8 again; do if ! cmp -s "$d/1" "$d/$w"; then bad=1; echo "$p seed $s: differs ($w): $(diff "$d/1" "$d/$w" | grep -c '^<') of $n"; fi; done
  done
done
rm -rf "$d"; [ $bad = 0 ] && echo "all executions repeat exactly"; exit $bad
