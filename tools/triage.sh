#!/bin/bash
# triage.sh PROP [count] [variant-binary]: violation classes of a batch, for development
P=$1; N=${2:-300}; B=${3:-plain}
rm -rf /tmp/o/$P; mkdir -p /tmp/o/$P
for w in 0 1 2 3 4 5 6 7; do
 ${SIMB:-/verif/build}/$B/simcheck batch --prop $P --variant $B --seed ${SEED:-1} --from $w --step 8 --to $N --time ${T:-60} --out /tmp/o/$P --keep 1000 --gate ${GATE:-20} --known /verif/known_findings.txt > /tmp/o/$P/log.$w 2>&1 &
done; wait
python3 - $P <<'Y'
import json,sys,glob,collections,re
c=collections.Counter(); ex={}; runs=0;gb=0;g=0;w=0;inex=0;stats=collections.Counter();cn=collections.Counter()
for f in glob.glob(f'/tmp/o/{sys.argv[1]}/log.*'):
    for l in open(f,errors='replace'):
        try: d=json.loads(l)
        except Exception: print('??',l[:300]); continue
        if 'violation' in d:
            m=re.sub(r'"(?:[^"\\]|\\.)*"','S',d['message'].split('\n')[0]); m=re.sub(r'0x[0-9a-f]+|\d+','N',m)
            fn=re.findall(r'_Z\w+',m)
            k=d['violation']+' | '+(' '.join(fn[:3]) if fn else m[:110])
            c[k]+=1; ex.setdefault(k,(d['plan'],d['message'][:400]))
            if not d['exact']: inex+=1; print('INEXACT',d['plan'])
        elif 'harness' in d: c['HARNESS '+d['harness'][:150]]+=1; ex['HARNESS '+d['harness'][:150]]=(d['index'],'')
        elif 'gate' in d: print('GATE',d)
        elif 'summary' in d:
            runs+=d['runs'];gb+=d['gate_bad'];g+=d['gates'];w=max(w,d['wall'])
            for k,v in d['stats'].items(): stats[k]+=v
            for k,v in d['counters'].items(): cn[k]+=v
for k,v in c.most_common(25): print(v,k,'\n     ',ex[k][0])
print('runs',runs,'wall %.1f'%w,'gates',g,'bad',gb,'inexact',inex, dict(stats))
print({k:v for k,v in cn.items() if v})
Y
