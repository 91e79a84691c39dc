#!/bin/bash
# seedtest.sh ID... : confirm planted bugs in a scratch copy: applies, builds, passes the tests, demo 0 on clean / nonzero with the patch
S=/tmp/seedwork
if [ ! -d $S/repo ]; then
    mkdir -p $S; git clone -q /repo $S/repo   # the build folder of /repo names /repo: configure a new one
    sed "s,/repo,$S/repo,g" /opt/vp/build.sh > $S/build.sh
    bash $S/build.sh > $S/build0.log 2>&1 || echo BUILD-FAILED
fi
run_tests() {
    sed -e "s,/repo,$S/repo,g" -e "s,/opt/vp/build.sh,$S/build.sh,g" /opt/vp/test.sh > $S/test.sh
    sed "s,/repo,$S/repo,g" /opt/vp/build.sh > $S/build.sh
    bash $S/test.sh $S/out.json > $S/test.log 2>&1
    python3 - <<P
import json
o=json.load(open("$S/out.json")); b=json.load(open("/opt/vp/BASELINE.json"))
st=b["stable"]; p=set(o["passed"]); m=[x for x in st if x not in p]
print("tests: %d passed, %d failed, %d of %d stable missing" % (len(o["passed"]), len(o["failed"]), len(m), len(st)))
P
}
for id in "$@"; do
    d=/verif/seeded/$id
    echo "== $id"
    git -C $S/repo checkout -q . ; git -C $S/repo fetch -q /repo HEAD 2>/dev/null; git -C $S/repo reset -q --hard FETCH_HEAD
    ninja -C $S/repo/_build > /dev/null || echo BUILD-CLEAN-FAILED
    n=/tmp/seedwork/demo_$id; mkdir -p $n; cp -a $d/. $n/; find $n -name '*.diff' -delete; find $n -name meta.json -delete
    (cd $S/repo && REPO=$S/repo timeout 300 bash $n/demo.sh > $S/demo.clean 2>&1); c=$?
    git -C $S/repo apply $d/patch.diff || { echo APPLY-FAILED; continue; }
    ninja -C $S/repo/_build > $S/build.log 2>&1 || { echo BUILD-FAILED; tail -5 $S/build.log; }
    t0=$(date +%s)
    (cd $S/repo && REPO=$S/repo timeout 300 bash $n/demo.sh > $S/demo.bad 2>&1); b=$?
    echo "clean exit $c ($(tail -1 $S/demo.clean))  patched exit $b ($(tail -1 $S/demo.bad)) $(( $(date +%s) - t0 )) s"
    [ -n "$NOTEST" ] || run_tests
    git -C $S/repo checkout -q .
done
