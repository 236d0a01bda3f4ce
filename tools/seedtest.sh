#!/bin/bash
# seedtest.sh [-n] [-c] id...: confirm planted bugs in a private overlay of /repo, /opt/vp and /verif/build.
#  -n: skip the repository's tests   -c: only run the check of the property
# prints: id apply build demo0(unchanged) demo1(patched) tests check
NT=0; CO=0
while [[ $1 == -* ]]; do case $1 in -n) NT=1;; -c) CO=1; NT=1;; esac; shift; done
for id in "$@"; do
S=/verif/seeded/$id
NT=$NT CO=$CO S=$S id=$id unshare -m bash -c '
W=$(mktemp -d /tmp/seedt.XXXX); mkdir -p $W/tm; mount -t tmpfs none $W/tm; cd $W/tm; mkdir -p ru rw vu vw bu bw d
mount --make-rprivate / 2>/dev/null
mkdir -p /verif/build
mount -t overlay -o lowerdir=/repo,upperdir=ru,workdir=rw none /repo || exit 9
mount -t overlay -o lowerdir=/opt/vp,upperdir=vu,workdir=vw none /opt/vp || exit 9
mount -t overlay -o lowerdir=/verif/build,upperdir=bu,workdir=bw none /verif/build || exit 9
cp -a $S/. d/; rm -f d/*.diff d/*.patch d/meta.json
R="$id:"
if [ $CO = 0 ]; then cd /repo; bash /opt/vp/build.sh > $W/tm/b0.log 2>&1 || R="$R BUILD0-FAILED"; timeout 300 bash $W/tm/d/demo.sh > $W/tm/demo0.log 2>&1; R="$R demo0=$?"; fi
cd /repo; git apply $S/patch.diff || { echo "$R APPLY-FAILED"; exit; }
if [ $CO = 0 ]; then bash /opt/vp/build.sh > $W/tm/b1.log 2>&1 || { R="$R BUILD-FAILED"; tail -5 $W/tm/b1.log; }
timeout 300 bash $W/tm/d/demo.sh > $W/tm/demo1.log 2>&1; R="$R demo1=$?"; fi
if [ $NT = 0 ]; then bash /opt/vp/test.sh $W/tm/t.json > $W/tm/t.log 2>&1; R="$R tests:$(python3 -c "
import json
b=json.load(open(\"/opt/vp/BASELINE.json\"));t=json.load(open(\"$W/tm/t.json\"));p=set(t[\"passed\"])
m=[x.split(\"::\")[0] for x in b[\"stable\"] if x not in p]; print(len(p), \"FAIL:\"+\",\".join(m) if m else \"ok\")")"; fi
P=$(python3 -c "import json;print(json.load(open(\"$S/meta.json\"))[\"property\"])")
cd /verif; ${CHECKENV:-env} timeout 900 python3 check.py $P > $W/tm/c.log 2>&1; R="$R check($P)=$? $(grep -h VIOLATION $W/tm/c.log | head -2 | cut -c1-150)"
echo "$R"; [ -n "$SHOW" ] && for f in $W/tm/demo0.log $W/tm/demo1.log $W/tm/c.log; do tail -n $SHOW $f; done
cd /; umount -l $W/tm; sleep 0.2; rmdir $W 2>/dev/null || rm -rf $W
'
done
