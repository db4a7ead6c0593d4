# plant a bug: seed(id, prop, edits, gotest, needs, breaks, pkg)
import subprocess,os,shutil,json,sys
S='/verif/seeded'
SH='''#!/bin/bash
# Builds the demonstration as a test of the library through an overlay.
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace":{"%%s/%s/zz_demo_test.go":"%%s/demo_test.go"}}' "$PWD" "$here" >"$tmp/overlay.json"
go test -count=1 -overlay "$tmp/overlay.json" -run TestDemo ./%s/
'''
def sh(c,cwd=None):
    return subprocess.run(c,shell=True,capture_output=True,text=True,executable='/bin/bash',cwd=cwd)
def seed(id,prop,edits,test,needs,breaks,pkg='v0/pkg/raml/rparse'):
    d=f'{S}/{id}'; W='/tmp/sw'
    sh(f'rm -rf {W}; cp -a /repo {W}')
    for f,o,n in edits:
        p=f'{W}/{f}'; s=open(p).read()
        if s.count(o)<1: print(id,'!! not found',f,repr(o[:60])); return
        s=s.replace(o,n,1); open(p,'w').write(s)
    diff=sh('git diff',W).stdout
    # only original lines
    cur=None
    for l in diff.split('\n'):
        if l.startswith('--- a/'): cur=l[6:]; base=sh(f'git show 039c2e4:{cur}',W).stdout.split('\n')
        elif l.startswith('-') and not l.startswith('---') and l[1:].strip() not in [b.strip() for b in base]:
            print(id,'!! not an original line:',l)
    os.makedirs(d,exist_ok=True)
    open(f'{d}/patch.diff','w').write(diff)
    open(f'{d}/demo_test.go','w').write(test.strip()+'\n')
    open(f'{d}/demo.sh','w').write(SH%(pkg,pkg)); os.chmod(f'{d}/demo.sh',0o755)
    json.dump({'property':prop,'needs':needs,'what_it_breaks':breaks},open(f'{d}/meta.json','w'),indent=1)
    b=sh('. /opt/vp/env.sh; go build ./... && go vet ./v0/pkg/... >/dev/null 2>&1; go test ./... 2>&1 | grep -v "no test files"',W)
    if 'FAIL' in b.stdout or b.stderr.strip(): print(id,'!! BUILD/TEST',b.stdout[-800:],b.stderr[-800:]); return
    a=sh(f'bash {d}/demo.sh','/repo'); c=sh(f'bash {d}/demo.sh',W)
    if a.returncode!=0: print(id,'!! demo fails on the unchanged tree',a.stdout[-1500:],a.stderr[-500:]); return
    if c.returncode==0: print(id,'!! demo passes with the change'); return
    env=dict(os.environ,REPO=W,VERIF_HOME='/tmp/vh',GOFLAGS='-mod=mod',GOSUMDB='off',GOPROXY='off',GOTOOLCHAIN='local')
    props=open('/verif/tools/claimed').read().split()
    r=subprocess.run(['/tmp/chk']+[prop],capture_output=True,text=True,env=env) if prop in props or os.environ.get('ALLP') else None
    st='-' if r is None else {0:'MISSED',1:'caught'}.get(r.returncode,'rc%d'%r.returncode)
    oth=[]
    if os.environ.get('OTHERS'):
        for q in props:
            if q!=prop and subprocess.run(['/tmp/chk',q],capture_output=True,text=True,env=env).returncode==1: oth.append(q)
    print(id,prop,st,'' if r is None else (r.stdout.split('\n')[0][:170] if r.returncode==1 else r.stdout.strip().split('\n')[-1][:120]),'| demo:',(c.stdout+c.stderr).strip().split('\n')[1][:110] if len((c.stdout+c.stderr).split('\n'))>1 else '',oth)
