# nb.py FILE [NAMES]: each case in FILE is a bug; runs build, tests, chkstop with its property first
import subprocess,shutil,os,sys,re
W='/tmp/wn'
cases=[]
def B(name,prop,*edits): cases.append((name,prop,edits))
exec(open(sys.argv[1]).read())
only=sys.argv[2:]
allc='C03 C18 C19 C17 C11 C12 C01 C16 C02 C04 C13 C10 C15 C14 C09 C07 C05 C08 C06 C20'.split()
for name,prop,edits in cases:
    if only and name not in only: continue
    shutil.rmtree(W,ignore_errors=True); shutil.copytree('/repo',W,symlinks=True)
    bad=False
    for f,o,n in edits:
        p=W+'/'+f; s=open(p).read()
        if o not in s: print(name,'!! NOT FOUND',f,repr(o[:50])); bad=True; break
        open(p,'w').write(s.replace(o,n,1))
    if bad: continue
    b=subprocess.run('. /opt/vp/env.sh; go build ./... && go test ./... 2>&1 | grep -v "no test files"',shell=True,capture_output=True,text=True,executable='/bin/bash',cwd=W)
    if b.stderr.strip() or 'FAIL' in b.stdout: print(name,'!! BUILD/TEST',(b.stdout+b.stderr)[-500:]); continue
    env=dict(os.environ,REPO=W,VERIF_HOME='/tmp/vhn',GOFLAGS='-mod=mod',GOSUMDB='off',GOPROXY='off',GOTOOLCHAIN='local')
    os.makedirs('/tmp/vhn/evidence',exist_ok=True)
    r=subprocess.run(['/tmp/chk',prop],capture_output=True,text=True,env=env)
    line=r.stdout.strip().split('\n')
    if r.returncode==1: print('ok     ',name,prop,line[0][:200]); continue
    r2=subprocess.run(['/tmp/chkstop']+[c for c in allc if c!=prop],capture_output=True,text=True,env=env)
    v=re.findall(r'VIOLATION property=(C\d+)',r2.stdout)
    print('MISSED ' if not v else 'OTHER  ',name,prop,v,line[-1][:160]); sys.stdout.flush()
