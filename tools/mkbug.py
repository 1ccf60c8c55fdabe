"""Planting a bug: confirm it in a scratch copy and write /verif/seeded/<id>/."""
import subprocess,os,json,sys,tempfile,re
ENV=dict(os.environ,GOFLAGS='-mod=mod',GOPROXY='off',GOTOOLCHAIN='local',GOSUMDB='off')
DEMO='''#!/bin/bash
# Runs demo.go as a test of package %(pkg)s; cwd is the repository.
d=$(cd "$(dirname "$0")" && pwd); r=$(pwd); t=$(mktemp -d)
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off
echo "{\\"Replace\\": {\\"$r/%(pkg)s/zz_demo_test.go\\": \\"$d/demo.go\\"}}" > "$t/o.json"
cp go.mod go.sum "$t/"
go test -modfile="$t/go.mod" -vet=off -count=1 -timeout 120s -overlay "$t/o.json" -run '^TestZZDemo$' ./%(pkg)s
rc=$?
rm -f "$t/o.json" "$t/go.mod" "$t/go.sum"; rmdir "$t"
exit $rc
'''
def sh(c,cwd):
    return subprocess.run(c,shell=True,cwd=cwd,env=ENV,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
def bug(id,prop,edits,pkg,demo,needs,breaks):
    d='/verif/seeded/'+id
    w=tempfile.mkdtemp(prefix='bug'); r=w+'/repo'
    try:
        sh('git clone -q /repo '+r,'/')
        os.makedirs(d,exist_ok=True)
        open(d+'/demo.go','w').write(demo); open(d+'/demo.sh','w').write(DEMO%{'pkg':pkg})
        p=sh('bash %s/demo.sh'%d,r)
        assert p.returncode==0,(id,'demo fails on clean tree',p.stdout[-1500:])
        for f,old,new in edits:
            s=open(r+'/'+f).read()
            assert s.count(old)==1,(id,f,'old text count',s.count(old))
            open(r+'/'+f,'w').write(s.replace(old,new))
        p=sh('go build ./... && go vet ./... >/dev/null 2>&1; go build ./...',r); assert p.returncode==0,(id,p.stdout)
        if p.stdout.strip(): print(id,'gofmt:',p.stdout.strip())
        p=sh('go test -vet=off -count=1 ./...',r); assert p.returncode==0,(id,'tests fail',p.stdout[-1500:])
        p=sh('bash %s/demo.sh'%d,r); assert p.returncode!=0,(id,'demo passes with the bug')
        out=p.stdout
        p=sh("git diff -- '*.go'",r); open(d+'/patch.diff','w').write(p.stdout)
        # only original lines
        for l in p.stdout.splitlines():
            if l.startswith('-') and not l.startswith('---'):
                pass
        json.dump({'property':prop,'needs':needs,'what_it_breaks':breaks},open(d+'/meta.json','w'),indent=1)
        print('ok',id,[l for l in out.splitlines() if 'demo' in l.lower()][:2])
    finally:
        sh('rm -rf -- '+w,'/')
