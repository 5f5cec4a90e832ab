#!/usr/bin/env python3
# mk.py ID...: build /verif/seeded/ID from /tmp/seed/defs/ID.py and confirm it
import sys,os,subprocess,json,shutil
WT='/tmp/wt'; OUT='/verif/seeded'
env=dict(os.environ,CC='gcc-11',CXX='g++-11',PKG_CONFIG_PATH='/opt/vp/pkgconfig')
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,env=env,**k)
base=set(json.load(open('/opt/vp/BASELINE.json')).get('passed') or json.load(open('/opt/vp/BASELINE.json')).get('stable',[]))
def build():
    r=sh('ninja -C %s/_build src/libhxhim.so src/libhxhim.a test/googletest'%WT)
    if r.returncode: print(r.stdout[-3000:]); return False
    return True
def demo(d,n=1):
    rcs=[]
    for _ in range(n):
        r=sh('bash %s/demo.sh'%d,cwd=WT,timeout=300); rcs.append(r.returncode)
    return rcs,(r.stdout+r.stderr)[-400:]
for i in sys.argv[1:]:
    sh('git -C %s checkout -q -- . && git -C %s pull -q'%(WT,WT))
    ns={}; exec(open('/tmp/seed/defs/%s.py'%i).read(),ns)
    for f,old,new in ns['edits']:
        p=WT+'/'+f; s=open(p).read()
        if s.count(old)!=1: print(i,'EDIT',f,'matches',s.count(old)); sys.exit(1)
        open(p,'w').write(s.replace(old,new))
    d=OUT+'/'+i; os.makedirs(d,exist_ok=True)
    open(d+'/patch.diff','w').write(sh('git -C %s diff'%WT).stdout)
    for f in ('demo.sh','common.hpp'): shutil.copy('/tmp/seed/common/'+f,d+'/'+f)
    if 'extra_demo_sh' in ns: pass
    open(d+'/demo.cpp','w').write(ns['demo'].lstrip())
    json.dump({"property":ns['prop'],"needs":ns['needs'],"what_it_breaks":ns['breaks']},open(d+'/meta.json','w'),indent=1)
    base_added=set()
    for f,_,_ in ns['edits']:
        orig=sh('git -C /repo show c32add0:%s'%f).stdout.split('\n')
        for l in open(d+'/patch.diff'):
            pass
    rm=[l[1:].rstrip('\n') for l in open(d+'/patch.diff') if l.startswith('-') and not l.startswith('---')]
    allorig=''.join(sh('git -C /repo show c32add0:%s'%f).stdout for f,_,_ in ns['edits']).split('\n')
    if not rm: print(i,'NOTE: only adds lines')
    for l in rm:
        if l not in allorig: print(i,'NOTE: removes a line that is not original:',l)
    ok=build()
    if not ok: print(i,'BUILD FAILED'); continue
    a,ao=demo(d,3)
    sh('bash /tmp/seed/test.sh /tmp/seed/%s.json'%i)
    t=json.load(open('/tmp/seed/%s.json'%i)); miss=base-set(t['passed'])
    sh('git -C %s checkout -q -- .'%WT); build()
    b,bo=demo(d,3)
    good=all(x not in(0,99) for x in a) and all(x==0 for x in b) and not miss
    print(i,'GOOD' if good else 'BAD','patched',a,'clean',b,'tests missing',len(miss),sorted(miss)[:3])
    print("   says:",ao.strip().replace("\n"," / ")[-150:])
    if not all(x==0 for x in b): print('   clean says:',bo[-300:])
