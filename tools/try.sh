#!/bin/bash
# try.sh scenlist [time] [variant]: build and run on 8 workers, show findings
cd ${WV:-/verif}; v=${3:-vc}; python3 build.py $v >/dev/null || exit 5
S=$(ls -t build/simrun-* | grep -v tmp | head -1); P=$(ls build/$v-*.exe|head -1)
rm -rf ${TRY:-/tmp/try}; mkdir -p ${TRY:-/tmp/try}
for w in 0 1 2 3 4 5 6 7; do $S --pe $P --scen $1 --seed ${SEED:-11} --runs 100000000 --time ${2:-10} --worker $w --nworkers 8 --out ${TRY:-/tmp/try}/$w > ${TRY:-/tmp/try}/$w.log 2>&1 & done; wait
cat ${TRY:-/tmp/try}/*.log | sort | uniq -c | sort -rn | head -20
python3 - <<'P'
import json,glob
pr={};runs=0
for f in glob.glob(__import__('os').environ.get('TRY','/tmp/try')+'/*.json'):
    j=json.load(open(f)); runs+=j['runs']
    for k,v in j['probes'].items(): pr[k]=pr.get(k,0)+v
    per=j['per_scenario']
print('runs',runs,pr)
P
