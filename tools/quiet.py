#!/usr/bin/env python3
# Behaviour-preserving edits: applies each to a scratch copy of /repo and runs the quick
# checks of the properties it touches. They must stay quiet.
#   tools/quiet.py [name...]     (list: tools/quiet.py -l)
import os,subprocess,sys,tempfile,shutil,json,time
from refactors import R
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
names=sys.argv[1:]
if names==['-l']:
    for n,p,_ in R: print(n,p)
    sys.exit()
tests='-t' in names; names=[n for n in names if n!='-t']
env=dict(os.environ,GOFLAGS='-mod=mod',GOPROXY='off',GOTOOLCHAIN='local')
bad=0
for n,props,edits in R:
    if names and n not in names: continue
    d=tempfile.mkdtemp(prefix='quiet-',dir='/tmp')
    try:
        subprocess.check_call(['cp','-a','/repo/.',d])
        for f,a,b in edits:
            s=open(f'{d}/{f}').read()
            if s.count(a)<1: print(f'{n}: {f}: text not found: {a[:60]!r}'); bad+=1; break
            open(f'{d}/{f}','w').write(s.replace(a,b))
        else:
            r=subprocess.run(['go','build','./...'],cwd=d,env=env,capture_output=True,text=True)
            if r.returncode: print(n,'does not build',r.stderr[-500:]); bad+=1; continue
            if tests:
                r=subprocess.run(['go','test','-vet=off','-skip','TestHandlerCalls','./...'],cwd=d,env=dict(env,SHELL='/bin/sh'),capture_output=True,text=True)
                if r.returncode: print(n,'fails tests',r.stdout[-1500:])
            for p in props.split():
                t=time.time()
                try:
                    r=subprocess.run([root+'/bin/gosym','run','-prop',p],env=dict(env,VERIF_REPO=d,VERIF_DIR=root,VERIF_EVIDENCE='/tmp/w/ev'),capture_output=True,text=True,timeout=900)
                    o=r.stdout+r.stderr; rc=r.returncode
                except subprocess.TimeoutExpired: o='';rc='timeout'
                lines=[l for l in o.split('\n') if 'VIOLATION' in l or 'reduced bound in' in l or 'error' in l.lower() and rc not in (0,1)]
                print(f'{n} {p} rc={rc} {time.time()-t:.0f}s',*lines[:6],sep='\n   ' if lines else ' ')
                sys.stdout.flush()
                if rc!=0: bad+=1
    finally: shutil.rmtree(d)
print('bad:',bad); sys.exit(bad>0)
