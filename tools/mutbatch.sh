#!/bin/bash
# tools/mutbatch.sh <file> [slots]: runs mutate.sh for every line "property@@file@@regex@@replacement@@args" of <file>, several at a time
N=${2:-3}
worker() { export MUT_SLOT=_$1; awk -v k=$1 -v n=$N 'NF && !/^#/ {if ((c++)%n==k) print}' "$F" | while IFS= read -r l; do
  p=${l%%@@*}; l=${l#*@@}; f=${l%%@@*}; l=${l#*@@}; a=${l%%@@*}; l=${l#*@@}; c=${l%%@@*}; r=; case "$l" in *@@*) r=${l#*@@};; esac
  echo "$p $f $(/verif/tools/mutate.sh "$p" "$f" "$a" "$c" $r </dev/null 2>&1 | tail -3 | tr '\n' ' ')"; done; }
F=$1; for i in $(seq 0 $((N-1))); do worker $i & done; wait
