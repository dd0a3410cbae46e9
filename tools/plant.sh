#!/bin/bash
# plant.sh ID PROP "needs" "breaks": run PROP's quick check on the changed copy $BUG and store the change
# with the found case as its demonstration. Exits 1 (and stores the change without one) when the check misses it.
BUG=${BUG:-/tmp/bug}; V=$(cd "$(dirname "$0")/.." && pwd); cd $V
VERIF_REPO=$BUG VERIF_BUILD=/tmp/plantbuild timeout 900 python3-vt check.py $2 > /tmp/plant_$1.log 2>/tmp/plant_$1.err
rc=$?; tail -4 /tmp/plant_$1.log
rp=$(grep ^VIOLATION /tmp/plant_$1.log | sed 's/.*replay=//')
if [ -n "$rp" ]; then python3 tools/mkseed.py $1 $2 $rp "$3" "$4"; echo "$1 stored"; else echo "$1 MISSED rc=$rc"; mkdir -p /tmp/missed; git -C $BUG diff > /tmp/missed/$1.diff; fi
git -C $BUG checkout -q -- .
