import subprocess,shutil,os,sys
sys.path.insert(0,'/tmp')
W='/tmp/w'
def run(name,edits,props,expect,build=True):
    if os.path.exists(W): shutil.rmtree(W)
    shutil.copytree('/repo',W,symlinks=True)
    for f,o,n in edits:
        p=W+'/'+f; s=open(p).read()
        if o not in s: print(name,'!! NOT FOUND in',f); return
        s=s.replace(o,n,1); open(p,'w').write(s)
    if build:
        b=subprocess.run('. /opt/vp/env.sh; cd /tmp/w && go build ./... 2>&1 | head -5',shell=True,capture_output=True,text=True,executable='/bin/bash')
        if b.stdout.strip(): print(name,'!! BUILD',b.stdout); return
    env=dict(os.environ,REPO=W,VERIF_HOME='/tmp/vh',GOFLAGS='-mod=mod',GOSUMDB='off',GOPROXY='off',GOTOOLCHAIN='local')
    out=[];ok=True
    for p in props:
        r=subprocess.run(['/tmp/chk',p],capture_output=True,text=True,env=env)
        st={0:'quiet',1:'CAUGHT'}.get(r.returncode,'rc%d '%r.returncode)
        last=r.stdout.strip().split('\n')[-1]
        und=last.split('undecided')[0].split(',')[-1].strip() if 'undecided' in last else '?'
        first=r.stdout.split('\n')[0][:230] if r.returncode else ''
        out.append(f'{p}:{st} und={und} {first}')
        if (r.returncode==1)!=(expect=='bug'): ok=False
    if expect=='bug' and any('CAUGHT' in o for o in out): ok=True
    print(('ok  ' if ok else 'BAD '),expect,name,'|',' || '.join(out))
