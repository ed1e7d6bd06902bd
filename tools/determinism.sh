#!/bin/bash
# determinism.sh [RUNS] [ID...]  the event logs of the same runs under 1, 3 and 8 workers and two hash seeds
runs=${1:-400}; shift
cd "$(dirname "$0")/.." || exit 1
out=$(mktemp -d)
bad=0
for p in ${*:-C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C17}; do
    for seed in 1 2; do
        i=0
        for cfg in "1 0" "3 77" "8 0" "8 77"; do
            set -- $cfg
            VERIF_SEED=$seed bash check.sh $p --runs $runs --workers $1 --hashseed $2 --digests $out/$p.$seed.$i >$out/log 2>&1 ||
                { echo "$p seed $seed: failed"; tail -3 $out/log; bad=1; }
            i=$((i + 1))
        done
        n=$(sort $out/$p.$seed.0 | wc -l)
        for j in 1 2 3; do
            cmp -s <(sort $out/$p.$seed.0) <(sort $out/$p.$seed.$j) ||
                { echo "$p seed $seed: configuration $j differs"; diff <(sort $out/$p.$seed.0) <(sort $out/$p.$seed.$j) | head -3; bad=1; }
        done
        echo "$p seed $seed: $n runs compared in 4 configurations"
    done
done
rm -r "$out"
exit $bad
