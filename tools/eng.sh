#!/bin/bash
# pool.sh time k=v ...
cd /verif; T=$1; shift; BC=$(python3 -c "import sys;sys.path.insert(0,'lib');import vbuild;print(vbuild.bitcode('${H:-C16}','${V:-}'))" 2>&1 | grep -v "^  " | grep "error:\|\.bc$" | head -5); A=""; for x in "$@"; do A="$A --param $x"; done
ulimit -v 14000000; timeout $((T+20)) .build/engine/engine $BC -o /tmp/o$$.json --repo ${LEARNLOG_REPO:-/repo} --own /verif --time $T --mem 8000 --steps 20000000 $A > /tmp/o$$.log 2>/tmp/q$$.log || tail -3 /tmp/q$$.log
python3 - "$*" /tmp/o$$.json <<'P'
import json,sys
try:
    d=json.load(open(sys.argv[2])); print(sys.argv[1],{k:d[k] for k in ('status','stop','seconds','paths','nodes','merged','forks','bounded','fair_runs','threads','pending')},d['covers'],d['incomplete'],[(v['id'],v['msg'],v['loc']) for v in d['violations']])
except Exception as e: print(sys.argv[1],e)
P
rm -f /tmp/o$$.json /tmp/o$$.log /tmp/q$$.log || tail -3 /tmp/q$$.log
