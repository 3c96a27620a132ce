#!/bin/bash
# seedtest.sh ID [notests]: demo on /repo and on a patched copy, the check, and the tests, against the patched copy
ID=$1; V=$(dirname "$(dirname "$(readlink -f "$0")")")
W=/tmp/seedrun-$ID; rm -rf "/tmp/seedrun-$ID"; cp -a /repo "$W"
git -C "$W" apply "$V/seeded/$ID/patch.diff" || exit 2
PROP=$(python3 -c "import json;print(json.load(open('$V/seeded/$ID/meta.json'))['property'])")
(cd /repo && timeout 300 bash "$V/seeded/$ID/demo.sh" >/tmp/seedrun-$ID.o1 2>&1); A=$?
(cd "$W" && PYTHONPATH="$W" timeout 300 bash "$V/seeded/$ID/demo.sh" >/tmp/seedrun-$ID.o2 2>&1); B=$?
T=skipped
if [ "$2" != notests ]; then
  mkdir -p "$W/.t"; ( cd "$W/.t" && PYTHONPATH="$W" PYTEST_DISABLE_PLUGIN_AUTOLOAD=1 MPLBACKEND=Agg OMP_NUM_THREADS=1 MALLOC_MMAP_THRESHOLD_=4294967296 MALLOC_TRIM_THRESHOLD_=8589934592 MALLOC_TOP_PAD_=67108864 timeout 840 /opt/venv/bin/python -m pytest -q -p no:cacheprovider -p xdist.plugin -n 2 --rootdir="$W" "$W/zoidberg" "$W/test" > /tmp/seedrun-$ID.tests 2>&1 ); T=$(tail -1 /tmp/seedrun-$ID.tests)
fi
VZ_REPO="$W" timeout 900 "$V/run.sh" "$PROP" quick > /tmp/seedrun-$ID.check 2>&1; C=$?
echo "$ID $PROP demo clean=$A patched=$B tests=[$T] check=$C $(grep -c VIOLATION /tmp/seedrun-$ID.check) undecided=$(grep -c UNDECIDED /tmp/seedrun-$ID.check)"
rm -rf "/tmp/seedrun-$ID"
