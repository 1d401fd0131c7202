#!/bin/bash
# all obligations: proveall.sh [ROOT]
cd /verif
for i in $(python3-vt -c "
from pyvc import props
print(*[n for n in sorted(vars(props)) if len(n)==3 and n[0]=='C' and n[1:].isdigit()])"); do
  s=$(date +%s.%N)
  python3-vt -m pyvc.prove $i -v --root ${1:-/repo} > /tmp/pa.out 2>&1
  echo "$i $(grep -c ^proved /tmp/pa.out) proved, $(grep -c ^unknown /tmp/pa.out) unknown, $(grep -c ^refuted /tmp/pa.out) refuted, $(echo "$(date +%s.%N)-$s" | bc | cut -c1-5) s"
  grep "^unknown\|^refuted" /tmp/pa.out | cut -c1-400
done
