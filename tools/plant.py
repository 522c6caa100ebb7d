#!/usr/bin/env python3
"""plant.py FILE...: makes /verif/seeded/<id>/ from descriptions and confirms each.

FILE defines SEEDS, a list of dicts: id, property, edits [(file, old, new)], pkg
(directory of the demo test), demo (Go source of the test file), race, needs, breaks.
A scratch copy of /repo is used; /repo is not touched."""
import json,os,subprocess,sys,shutil,tempfile
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R='/repo'
env=dict(os.environ,GOFLAGS='-mod=mod',GOPROXY='off',GOTOOLCHAIN='local')
DEMO='''#!/bin/bash
# Runs the test beside this file inside the package {pkg} of the current directory.
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
printf '{{"Replace":{{"%s/{pkg}/zz_demo_test.go":"%s/zz_demo_test.go"{extra}}}}}' "$PWD" "$d" > "$t/overlay.json"
{pre}go test {flags}-overlay "$t/overlay.json" -vet=off -run '^TestZZDemo$' -count=1 -timeout 120s ./{pkg}
'''
def sh(cmd,cwd,timeout=300):
    r=subprocess.run(cmd,shell=True,cwd=cwd,env=env,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,timeout=timeout,text=True,errors='replace')
    return r.returncode,r.stdout
stable=json.load(open('/opt/vp/BASELINE.json'))
def run(s):
    t=tempfile.mkdtemp(prefix='plant.')
    try:
        sh(f'cp -a {R}/. {t}/',R)
        sh('git checkout -q -- . ',t)
        d=f'{V}/seeded/{s["id"]}'
        os.makedirs(d,exist_ok=True)
        open(f'{d}/zz_demo_test.go','w').write(s['demo'])
        open(f'{d}/demo.sh','w').write(DEMO.format(pkg=s['pkg'],flags='-race ' if s.get('race') else '',extra=s.get('extra',''),pre=s.get('pre','')))
        os.chmod(f'{d}/demo.sh',0o755)
        json.dump({'property':s['property'],'needs':s['needs'],'what_it_breaks':s['breaks']},open(f'{d}/meta.json','w'),indent=1)
        rc,out=sh(f'bash {d}/demo.sh',t)
        if rc!=0: return 'DEMO FAILS ON CLEAN '+out[-1500:]
        for f,old,new in s['edits']:
            x=open(f'{t}/{f}').read()
            if x.count(old)!=1: return f'edit of {f}: {x.count(old)} matches'
            open(f'{t}/{f}','w').write(x.replace(old,new))
        rc,diff=sh('git diff',t)
        open(f'{d}/patch.diff','w').write(diff)
        rc,out=sh('go build ./...',t)
        if rc: return 'BUILD '+out[-1500:]
        rc,out=sh("go test -json -vet=off -count=1 -timeout 5m $(go list -e ./... | grep -vx github.com/BTBurke/monny/pkg/monny) < /dev/null",t)
        bad=[]
        for l in out.splitlines():
            try: e=json.loads(l)
            except Exception: continue
            if e.get('Action')=='fail' and e.get('Test'): bad.append(e['Test'])
        if bad: return 'TESTS FAIL '+str(bad[:5])
        rc,out=sh(f'bash {d}/demo.sh',t)
        if rc==0: return 'DEMO PASSES WITH THE BUG'
        # changed lines must be original
        rc,base=sh('git log --format=%h --reverse | head -1',t)
        rc,out2=sh('git diff -U0 | grep -E "^(---|@@)"',t)
        f=None;mine=0;tot=0
        for l in out2.splitlines():
            if l.startswith('---'): f=l[6:]
            else:
                a=l.split()[1][1:].split(',')
                st=int(a[0]);n=int(a[1]) if len(a)>1 else 1
                if n==0: continue
                rc,b=sh(f'git blame -s -L {st},{st+n-1} HEAD -- {f}',t)
                for bl in b.splitlines():
                    tot+=1
                    if not bl.lstrip('^').startswith(base.strip()[:6]): mine+=1
        return f'ok lines={tot} mine={mine} :: '+[x for x in out.splitlines() if x.strip()][-6:].__str__()[:300]
    finally:
        shutil.rmtree(t,ignore_errors=True)
only=[a for a in sys.argv[1:] if not a.endswith('.py')]
for fn in [a for a in sys.argv[1:] if a.endswith('.py')]:
    g={}
    exec(open(fn).read(),g)
    for s in g['SEEDS']:
        if only and s['id'] not in only: continue
        r=run(s)
        print(s['id'],s['property'],r,flush=True)
        if not r.startswith('ok'): shutil.rmtree(f'{V}/seeded/{s["id"]}',ignore_errors=True)
