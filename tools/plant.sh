#!/bin/bash
# plant.sh ID PROP: in the scratch copy /tmp/plant (edited by the caller), takes the diff as seeded/ID/patch.diff,
# confirms build, stable tests and the demonstration both ways, then runs the check of PROP against it.
ID=$1; PROP=$2; S=/verif/seeded/$ID; R=/tmp/plant
cd $R || exit 2
git diff > $S/patch.diff; [ -s $S/patch.diff ] || { echo "no change"; exit 2; }
cp /verif/tools/demo.sh $S/demo.sh; chmod +x $S/demo.sh
. /opt/vp/env.sh
go build $(go list -e ./... | grep -Ev "$LEFT_OUT") || { echo "BUILD FAILS"; exit 1; }
go test -vet=off ./internal/ops/pre ./internal/ops/stretch ./internal/qsort 2>&1 | grep -E "^(FAIL|--- FAIL)" 
timeout 250 bash $S/demo.sh > /tmp/demo.bug 2>&1; b=$?
git apply -R $S/patch.diff; timeout 250 bash $S/demo.sh > /tmp/demo.ok 2>&1; o=$?
git apply $S/patch.diff
echo "demo: unchanged=$o patched=$b"; [ $o = 0 ] || tail -5 /tmp/demo.ok; tail -3 /tmp/demo.bug
cd /verif; VERIF_REPO=$R VERIF_ROOT=/verif VERIF_TIER=quick VERIF_SEED=1 ./bin/govc check $PROP 2>&1 | tail -4 | cut -c1-300
git -C $R checkout -q -- .
