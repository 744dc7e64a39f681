#!/bin/bash
# seedcheck.sh ID [check ids...]: confirm a planted bug in a scratch copy of /repo: applies, builds, passes the
# stable tests, demo passes without and fails with it; then run the checks of its property against the copy
ID=$1; shift; S=${SEEDROOT:-/verif/seeded}/$ID; SC=/tmp/sc
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 CC=gcc CXX=g++
mkdir -p $SC; rsync -a --delete --exclude _build /repo/ $SC/ 2>/dev/null || { find $SC -mindepth 1 -maxdepth 1 ! -name _build -exec rm -rf {} +; cp -a $(find /repo -mindepth 1 -maxdepth 1 ! -name _build) $SC/; }
cd $SC || exit 1; git -C $SC checkout -q -- .
bld() { cmake -S $SC -B $SC/_build -G Ninja -DCMAKE_BUILD_TYPE=Release -DCMAKE_POLICY_VERSION_MINIMUM=3.5 -DBUILD_DOCUMENTATION=OFF -DBUILD_TESTS=ON >/tmp/sc.log 2>&1 && ninja -C $SC/_build >>/tmp/sc.log 2>&1 || { echo "BUILD FAILED"; tail -20 /tmp/sc.log; exit 1; }; }
D=$(mktemp -d /tmp/demoXXXX); cp -a $S/. $D/; rm -f $D/patch.diff $D/meta.json
bld; timeout 300 bash $D/demo.sh >/tmp/sc.demo0 2>&1; r0=$?; echo "demo unpatched: $r0"; [ $r0 = 0 ] || tail -5 /tmp/sc.demo0
git -C $SC apply $S/patch.diff || exit 1; bld; timeout 300 bash $D/demo.sh >/tmp/sc.demo1 2>&1; r1=$?; echo "demo patched: $r1"; tail -3 /tmp/sc.demo1
rm -rf "$D"
if [ -z "$NOTEST" ]; then
 [ -f /tmp/sc_seed.so ] || g++ -O1 -fPIC -shared -o /tmp/sc_seed.so /opt/vp/fixed_seed.cpp
 one() { W=$(mktemp -d /tmp/sctXXXX); cp -r $SC/tests $SC/scripts $SC/examples $W/; cd $W; if [ -n "$2" ]; then { LD_PRELOAD=/tmp/sc_seed.so timeout 300 $SC/_build/teufel $2 && /usr/bin/python3 $3; } >log 2>&1; else LD_PRELOAD=/tmp/sc_seed.so timeout 300 $SC/_build/teufel.$1 >log 2>&1; fi; r=$?; [ $r = 0 ] || echo "TEST FAILED $1 ($r)"; cd /; rm -rf "$W"; }
 export OMP_NUM_THREADS=2
 for t in integrate_field bunch magnet undulator loop EcrossB electrostatic RadPush diffraction; do one $t & done; one undulator_matching examples/undulator_matching.xml tests/test.matching.py & one fel_modulation tests/fel_modulation.xml tests/test.fel-modulation.py & one fel1d_modulation tests/fel1d_modulation.xml tests/test.fel-modulation.py & wait
 unset OMP_NUM_THREADS; echo "tests done"
fi
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
for c in ${@:-$P}; do VF_REPO=$SC VF_DEVCACHE=/tmp/sc_cache python3 ${VF_CHECKS:-/verif}/checks/run.py $c 2>&1 | cut -c1-300 | tail -6; done
git -C $SC checkout -q -- .
