#!/bin/bash
# bug.sh ID [nocheck]: confirm seeded/ID in a scratch copy (/tmp/bw), then run the check of its property against it
ID=$1; V=${VDIR:-/verif}; W=/tmp/bw; D=$V/seeded/$ID; P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
export CC=gcc CXX=g++ OMP_NUM_THREADS=2 OPENBLAS_NUM_THREADS=1 OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMPI_MCA_rmaps_base_oversubscribe=1 OMPI_MCA_mpi_yield_when_idle=1 OMPI_MCA_hwloc_base_binding_policy=none OMPI_MCA_plm=isolated OMPI_MCA_btl=self,vader OMPI_MCA_btl_vader_single_copy_mechanism=none
if [ ! -d $W ]; then git clone -q /repo $W; fi
cd $W && git checkout -q -- . && git fetch -q origin && git reset -q --hard $(git -C /repo rev-parse HEAD)
if [ ! -f _build/build.ninja ]; then cmake -S $W -B $W/_build -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DWITH_TESTS=ON -DENABLE_OpenMP=ON -DENABLE_MPI=ON -DENABLE_CUDA=OFF -DCMAKE_CXX_FLAGS=-Wno-error > /dev/null || exit 1; fi
ninja -C _build > /tmp/bw.log 2>&1 || { tail -20 /tmp/bw.log; exit 1; }
rm -rf /tmp/bwdemo; cp -r $D /tmp/bwdemo; rm -f /tmp/bwdemo/patch.diff /tmp/bwdemo/meta.json
timeout 300 bash /tmp/bwdemo/demo.sh > /tmp/bw.demo0 2>&1; r0=$?
git apply $D/patch.diff || { echo "$ID: patch does not apply"; exit 1; }
ninja -C _build > /tmp/bw.log 2>&1 || { echo "$ID: does not build"; tail -20 /tmp/bw.log; git checkout -q -- .; exit 1; }
timeout 300 bash /tmp/bwdemo/demo.sh > /tmp/bw.demo1 2>&1; r1=$?
rm -rf /tmp/bw.rep; mkdir /tmp/bw.rep; python3 /opt/vp/run_tests.py $W/_build /tmp/bw.rep > /tmp/bw.rep/t.lines 2>/tmp/bw.terr
python3 /opt/vp/results.py /tmp/bw.json "junit:/tmp/bw.rep/*.xml" "lines:/tmp/bw.rep/*.lines" > /dev/null
T=$(python3 -c "
import json;s=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])-{'CMakeFind::build'};r=json.load(open('/tmp/bw.json'));m=s-set(r['passed']);print(len(m),sorted(m)[:3])")
echo "$ID ($P): demo base=$r0 patched=$r1 (want 0, nonzero); stable tests missing: $T"
[ "$r0" != 0 ] && tail -5 /tmp/bw.demo0; [ "$r1" = 0 ] && tail -5 /tmp/bw.demo1
if [ "$2" != nocheck ]; then cd $V && VERIF_REPO=$W timeout 900 python3 check.py $P > /tmp/bw.check 2>&1; echo "check $P exit $?"; grep -E "VIOLATION|INCONC|MISMATCH|NOT-REP|ERROR" /tmp/bw.check | cut -c1-220 | head -5; fi
git -C $W checkout -q -- .
