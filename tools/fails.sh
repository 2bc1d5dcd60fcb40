#!/bin/bash
# Lists every failing case of a built harness: fails.sh cNN [prefix words]
set -e
cd "$(dirname "$0")/.."
B=$(python3 -c "import sys; sys.path.insert(0,'tools'); import vbuild; print(vbuild.build('$1', tuple('''$FLAGS'''.split())))")
for i in 0 1 2 3 4 5 6 7; do VH_SHARD=$i VH_SHARDS=8 VH_RESULT=build/r$i.json "$B" > build/st$i.txt 2>&1 & done
wait
python3 - "${2:-2}" <<'P'
import json,collections,sys
n=int(sys.argv[1]); c=collections.Counter(); ex={}
for i in range(8):
    d=json.load(open(f'build/r{i}.json'))
    for f in d.get('fails',d.get('failures',[])):
        k=' '.join(f['case'].split()[:n]); c[k]+=1; ex.setdefault(k,(f['case'],f['what'][:220]))
for k in c: print(c[k],k,ex[k])
P
