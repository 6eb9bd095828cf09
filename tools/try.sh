#!/bin/bash
# try.sh HARNESS [SECONDS] [SEED]: run and show the minimised violation
cd /verif && python3 tools/build.py $1 | grep -v "^\[" ; cd /verif/build/bin
timeout 400 ./$1 run --runs 100000000 --seconds ${2:-5} --seed ${3:-1} --summary /tmp/s.$1.json --replay-out /tmp/r.$1.txt; rc=$?
echo rc=$rc
python3 - $1 <<'P'
import json,sys,subprocess
h=sys.argv[1]
s=json.load(open('/tmp/s.%s.json'%h))
v=s.pop('violation',None); s.pop('sample',None)
print(json.dumps(s))
if v:
    print(v['class'],v['message'],'sw',v['switches'],'fl',v['faults'])
    print(subprocess.run(['addr2line','-Cfpe',h]+v['stack'],stdout=subprocess.PIPE,text=True).stdout)
P
[ $rc = 1 ] && { ./$1 replay /tmp/r.$1.txt 2>&1 | tail -${4:-25}; grep -v keep /tmp/r.$1.txt | tail -20; }
exit 0
