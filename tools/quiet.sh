#!/bin/bash
# tools/quiet.sh SEEDS [ids...]: every property on the unchanged tree under other seeds ("1 2 3"); prints one line per run, nothing is stored
V=$(cd "$(dirname "$0")/.." && pwd); cd "$V"
seeds=$1; shift
ids=("$@"); [ ${#ids[@]} -eq 0 ] && ids=($(python3 -c "from config import PROPS; print(*sorted(PROPS))"))
for p in "${ids[@]}"; do for s in $seeds; do
  out=$(python3 run.py $p --explore --seed $s ${CASES:+--cases $CASES} 2>&1)
  echo "$p seed $s: $(echo "$out" | grep -v '^{' | tr '\n' ' ' | cut -c1-400)"
done; done
