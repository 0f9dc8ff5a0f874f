#!/bin/bash
# bash tools/plant.sh ID            verify seeded/ID in a scratch copy: tests pass, demo 0 -> nonzero, check catches
# bash tools/plant.sh --make ID PROP  make seeded/ID/patch.diff from the edits in /tmp/pl/work (a clone of /repo)
set -u
V=$(dirname "$(dirname "$(readlink -f "$0")")")
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PIP_NO_INDEX=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MPLBACKEND=agg
if [ "${1:-}" = --make ]; then
  mkdir -p "$V/seeded/$2"; git -C /tmp/pl/work/meterstick diff > "$V/seeded/$2/patch.diff"
  git -C /tmp/pl/work/meterstick checkout -q -- .; exit 0
fi
ID=$1; D="$V/seeded/$ID"; W=/tmp/pl/$ID; rm -rf "/tmp/pl/$ID"; mkdir -p "$W"
git clone -q /repo "$W/meterstick"
cd "$W/meterstick"
bash "$D/demo.sh" >/tmp/pl/$ID.demo0 2>&1; d0=$?
git apply "$D/patch.diff" || { echo "$ID: patch does not apply"; exit 2; }
bash "$D/demo.sh" >/tmp/pl/$ID.demo1 2>&1; d1=$?
cd "$W"
PYTHONPATH=$W /opt/venv/bin/python -m pytest -q -p no:cacheprovider -c /dev/null --rootdir="$W" -n 8 --timeout=300 --tb=short "$W/meterstick" >/tmp/pl/$ID.tests 2>&1
t=$(tail -1 /tmp/pl/$ID.tests)
P=$(/opt/venv/bin/python -c "import json;print(json.load(open('$D/meta.json'))['property'])")
c='-'
if [ -z "${NOCHECK:-}" ]; then
  cd "$V"; VERIF_SEED=${VERIF_SEED:-1} VP_REPO="$W/meterstick" timeout 900 bash run.sh "$P" >/tmp/pl/$ID.check 2>&1; c="$? $(grep -m1 -o 'VIOLATION.*' /tmp/pl/$ID.check | cut -c1-150)"
fi
echo "$ID $P demo0=$d0 demo1=$d1 tests=[$t] check=[$c]"
rm -rf "/tmp/pl/$ID"
