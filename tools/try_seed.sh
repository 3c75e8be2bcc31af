#!/bin/bash
# try_seed.sh [-n] ID...: in a mount namespace where a scratch copy stands in for /repo: build, demo (must pass), patch, build, tests, demo (must fail), then the check (must report). -n: skip tests
N=0; [ "$1" = -n ] && { N=1; shift; }
T=$(mktemp -d /tmp/trys.XXXXXX); cp -a /repo "$T/repo"
for id in "$@"; do
P=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
unshare -m bash -c "
mount --bind $T/repo /repo; cd /repo; git checkout -q -- .
bash /opt/vp/build.sh >$T/b0 2>&1 || { echo '$id: BASE BUILD FAILS'; exit; }
bash /verif/seeded/$id/demo.sh >$T/d0 2>&1 || { echo '$id: DEMO FAILS ON BASE'; tail -5 $T/d0; exit; }
git apply /verif/seeded/$id/patch.diff || { echo '$id: NO APPLY'; exit; }
bash /opt/vp/build.sh >$T/b1 2>&1 || { echo '$id: BUILD FAILS'; grep error $T/b1|head; exit; }
if [ $N = 0 ]; then bash /opt/vp/test.sh $T/o.json >$T/t 2>&1; python3 -c \"
import json;b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open('$T/o.json'));
st=b['stable']; m=[x for x in st if x not in o['passed']]; print('$id: tests', 'ok' if not m else 'BROKEN %s'%m[:5])\"; fi
bash /verif/seeded/$id/demo.sh >$T/d1 2>&1 && echo '$id: DEMO DOES NOT FAIL'
echo \"$id: demo: \$(tail -1 $T/d1)\"
cd /verif; python3 run.py $P >$T/c 2>&1; echo \"$id: check $P rc=\$? \$(grep -m1 -a VIOLATION $T/c) \$(grep -a -m1 -A3 -i 'violation' $T/c | tail -2 | cut -c1-300)\"
"
done
find "$T" -delete
