#!/bin/bash
# trybug.sh ID [PROP...]: the runtime layer and the prover against a planted bug, in a scratch copy
d=$(mktemp -d /tmp/try-XXXX); cp -a /repo/sofar $d/; (cd $d && git init -q . && git apply /verif/seeded/$1/patch.diff) || echo "cannot apply"
p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$1/meta.json'))['property'])")
shift_id=$1; shift; [ $# -gt 0 ] && p="$*"
for q in $p; do
cd /verif; VERIF_REPO=$d /opt/venv/bin/python rt/run.py $q > $d/o.json 2>$d/err
python3 - $d $shift_id $q <<'P'
import json,sys
d,i,q=sys.argv[1:]
try: r=json.load(open(d+'/o.json'))
except Exception: print(i,q,'CRASH',open(d+'/err').read()[-300:]); raise SystemExit
print(i,q,'CAUGHT' if r['fails'] else 'missed', r['cases'],'cases', r['nerrors'],'errors', len(r['fails']),'shards;', (r['fails'] or [{'message':''}])[0]['message'][:150].replace('\n',' '))
P
done
rm -rf $d
