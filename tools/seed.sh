#!/bin/bash
# tools/seed.sh ID : confirm seeded/ID in a scratch copy (build, stable tests, demo both ways), then run its check.
# tools/seed.sh ID notest : skip the test-suite run
ID=$1; S=/verif/seeded/$ID
W=$(mktemp -d /tmp/seedw.XXXX); trap 'rm -rf "$W"' EXIT
cp -a /repo $W/repo
cat > $W/env.sh <<X
. /opt/vp/env.sh
export PYTHONPATH=$W/repo
X
demo() { (cd $W/repo && . $W/env.sh && timeout 300 bash $S/demo.sh >$W/out 2>&1); echo $?; }
a=$(demo); tail -2 $W/out
git -C $W/repo apply $S/patch.diff || { echo "PATCH FAILS"; exit 1; }
b=$(demo); tail -3 $W/out
echo "demo clean=$a patched=$b"
(cd $W/repo && . $W/env.sh && sed "s#/repo#$W/repo#g" /opt/vp/check_build.py > $W/cb.py && python -W ignore $W/cb.py >/dev/null 2>&1; echo "build=$?")
if [ "$2" != notest ]; then
 (cd $W/repo && . $W/env.sh && python -m pytest -q -p no:cacheprovider -n 5 --timeout=600 --show-capture=no --tb=no -o python_files='test.py test_*.py' jax_am/fem/tests 2>&1 | tail -3)
fi
PID=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
cd /verif && VERIF_REPO=$W/repo timeout 900 python3 -m sa.run $PID | tail -6; echo "check exit=${PIPESTATUS[0]}"
