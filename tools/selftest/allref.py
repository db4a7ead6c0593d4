# runs every behaviour-preserving edit of the given scripts against every check
import sys,subprocess,shutil,os,re
import mut
cases=[]
def rec(name,edits,props,expect,build=True):
    if expect!='bug': cases.append((name,edits))
mut.run=rec
for f in sys.argv[1:]:
    src=open(f).read().replace('from mut import *','import mut\nrun=mut.run')
    exec(compile(src,f,'exec'),{})
print(len(cases),'edits')
W='/tmp/wr'
for name,edits in cases:
    if os.path.exists(W): shutil.rmtree(W)
    shutil.copytree('/repo',W,symlinks=True)
    bad=False
    for f,o,n in edits:
        p=W+'/'+f; s=open(p).read()
        if o not in s: print(name,'!! NOT FOUND in',f); bad=True; break
        open(p,'w').write(s.replace(o,n,1))
    if bad: continue
    b=subprocess.run('. /opt/vp/env.sh; cd %s && go build ./... 2>&1 | head -5'%W,shell=True,capture_output=True,text=True,executable='/bin/bash')
    if b.stdout.strip(): print(name,'!! BUILD',b.stdout); continue
    t=subprocess.run('REPO=%s VH=/tmp/vh2 bash /tmp/allchk.sh 3'%W,shell=True,capture_output=True,text=True,executable='/bin/bash')
    v=re.findall(r'VIOLATION property=(C\d+)|ERROR: property=(C\d+)',t.stdout)
    und={m[0]:int(m[1]) for m in re.findall(r'(C\d+): .* (\d+) undecided',t.stdout) if m[1]!='0'}
    und.pop('C06',0) if und.get('C06')==108 else 0
    tag='BAD ' if v or len(re.findall(r'obligations,',t.stdout))<19 else 'ok  '
    print(tag,name,sorted({a or b for a,b in v}),und if und else '')
    if v: print('   ',[l[:300] for l in t.stdout.split('\n') if ' at v0' in l or 'ERROR' in l][:3])
    sys.stdout.flush()
