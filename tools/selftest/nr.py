# nr.py FILE [NAMES]: behaviour-preserving edits; all checks must be quiet
import subprocess,shutil,os,sys,re
Q=os.environ.get('Q','q'); W='/tmp/w'+Q
cases=[]
def R(name,*edits): cases.append((name,edits))
exec(open(sys.argv[1]).read())
only=sys.argv[2:]
for name,edits in cases:
    if only and name not in only: continue
    shutil.rmtree(W,ignore_errors=True); shutil.copytree('/repo',W,symlinks=True)
    bad=False
    for f,o,n in edits:
        if f=='*':
            for d,_,fs in os.walk(W+'/v0'):
                for x in fs:
                    if x.endswith('.go'):
                        q=d+'/'+x; t=open(q).read(); u=re.sub(o,n,t,flags=re.M)
                        if u!=t: open(q,'w').write(u)
            continue
        p=W+'/'+f; s=open(p).read()
        if o not in s: print(name,'!! NOT FOUND',f,repr(o[:50])); bad=True; break
        open(p,'w').write(s.replace(o,n,1))
    if bad: continue
    b=subprocess.run('. /opt/vp/env.sh; go build ./... && go test ./... 2>&1 | grep -v "no test files"',shell=True,capture_output=True,text=True,executable='/bin/bash',cwd=W)
    if b.stderr.strip() or 'FAIL' in b.stdout: print(name,'!! BUILD/TEST',(b.stdout+b.stderr)[-500:]); continue
    os.makedirs('/tmp/vh'+Q+'/evidence',exist_ok=True)
    t=subprocess.run('REPO=%s VH=/tmp/vh%s bash /tmp/allchk.sh 3'%(W,Q),shell=True,capture_output=True,text=True,executable='/bin/bash')
    v=re.findall(r'VIOLATION property=(C\d+)|ERROR: property=(C\d+)',t.stdout)
    und={m[0]:int(m[1]) for m in re.findall(r'(C\d+): .* (\d+) undecided',t.stdout) if m[1]!='0'}
    n=len(re.findall(r'obligations,',t.stdout))
    print('BAD ' if v or n<20 else 'ok  ',name,sorted({a or b for a,b in v}),und if und else '',n if n<20 else '')
    if v: print('   ','\n    '.join([l[:330] for l in t.stdout.split('\n') if ' at v0' in l or 'ERROR' in l][:4]))
    sys.stdout.flush()
