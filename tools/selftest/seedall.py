#!/usr/bin/env python3
"""Applies every change under /verif/seeded to a scratch copy of /repo, runs the
stable tests, the demonstration (with and without it) and the check of its
property.  Usage: seedall.py [id...]   (OTHERS=1 also lists other checks)"""
import json, os, subprocess, sys, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
S='/verif/seeded'
ids=sys.argv[1:] or sorted(os.listdir(S))
env=dict(os.environ)
r=subprocess.run('. /opt/vp/env.sh 2>/dev/null; cd /verif/checker && GOSUMDB=off go build -o /tmp/chk_seedall . && env -0',shell=True,executable='/bin/bash',capture_output=True)
for kv in r.stdout.split(b'\0'):
    if b'=' in kv:
        k,v=kv.decode().split('=',1); env[k]=v
def sh(cmd,cwd,**k):
    e=dict(env); e.update(k)
    p=subprocess.run(cmd,shell=True,executable='/bin/bash',cwd=cwd,env=e,capture_output=True,text=True,timeout=900)
    return p.returncode,p.stdout+p.stderr
ALL=['C%02d'%i for i in range(1,21)]
def one(i):
    d=f'{S}/{i}'; prop=json.load(open(d+'/meta.json'))['property']
    w=tempfile.mkdtemp(prefix='seedall')
    try:
        sh(f'cp -a /repo/. {w}/ && git -C {w} checkout -q -- .',w)
        dd=w+'.demo'; os.mkdir(dd)
        for f in os.listdir(d):
            if f not in('patch.diff','meta.json'): shutil.copy(f'{d}/{f}',dd)
        a,o1=sh(f'bash {dd}/demo.sh',w)
        p,o2=sh(f'git apply {d}/patch.diff && go build ./... && go test ./... ',w)
        b,o3=sh(f'bash {dd}/demo.sh',w)
        ce={'REPO':w,'VERIF_HOME':w+'.vh','GOFLAGS':'-mod=mod','GOSUMDB':'off'}
        os.makedirs(w+'.vh/evidence',exist_ok=True)
        if os.path.exists('/verif/known-findings.txt'): shutil.copy('/verif/known-findings.txt',w+'.vh')
        c,o4=sh(f'/tmp/chk_seedall {prop}',w,**ce)
        others=''
        if env.get('OTHERS'):
            others=' '.join(x for x in ALL if x!=prop and sh(f'/tmp/chk_seedall {x}',w,**ce)[0]==1)
        ok=a==0 and p==0 and b!=0
        line=next((l for l in o4.splitlines() if 'VIOLATION' in l or l.startswith('  ')),'')
        return f"{'BAD' if not ok else 'ok ' if c==1 else 'MISS'} {i:28} {prop} {'caught' if c==1 else 'MISSED rc=%d'%c} {others} {'' if ok else (a,p,b,(o1+o2)[-300:])}"
    finally:
        for x in (w,w+'.demo',w+'.vh'): shutil.rmtree(x,ignore_errors=True)
with ThreadPoolExecutor(5) as ex:
    for l in ex.map(one,ids): print(l,flush=True)
