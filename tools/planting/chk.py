#!/usr/bin/env python3
# chk.py TIME ID...: run the check of each planted bug against it (in /tmp/wt)
import sys,os,subprocess,json,time
T=sys.argv[1]
W='/tmp/wt'
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,**k)
for i in sys.argv[2:]:
    d='/verif/seeded/'+i
    p=json.load(open(d+'/meta.json'))['property']
    sh('git -C %s checkout -q -- . && git -C %s pull -q'%(W,W))
    r=sh('git -C %s apply %s/patch.diff'%(W,d))
    if r.returncode: print(i,'does not apply',r.stderr); continue
    t=time.time()
    r=sh('python3 /verif/check.py '+p,env=dict(os.environ,SIM_REPO=W,SIM_BUILD='/tmp/wtb',CHECK_TIME=T),errors='replace')
    sh('git -C %s checkout -q -- .'%W)
    v=[l[:200] for l in r.stdout.splitlines() if l.startswith('VIOLATION') or l.startswith('ERROR')]
    print(i,p,'rc',r.returncode,'%.0fs'%(time.time()-t),v[:1] if r.returncode!=1 else v[-1:],flush=True)
