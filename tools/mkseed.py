#!/usr/bin/env python3
"""mkseed.py SPEC.py...  -- builds /verif/seeded/<id> from a spec and confirms it in scratch copies.
A spec defines: id, prop, needs, breaks, edits=[(file,old,new)], demo (Go test source), pkg, optional race/timeout."""
import sys,os,subprocess,shutil,tempfile,json
def sh(c,cwd=None,t=600):
    return subprocess.run(c,shell=True,cwd=cwd,capture_output=True,text=True,timeout=t)
ENV='export GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod; '
for spec in sys.argv[1:]:
    g={}
    exec(open(spec).read(),g)
    d='/verif/seeded/'+g['id']
    tmp=tempfile.mkdtemp(prefix='seed-',dir='/tmp')
    try:
        os.makedirs(d,exist_ok=True)
        sh('cp -a /repo %s/r && cp -a /repo %s/o'%(tmp,tmp))
        r=tmp+'/r'; o=tmp+'/o'
        for f,a,b in g['edits']:
            s=open(r+'/'+f).read()
            assert s.count(a)==1,(g['id'],f,s.count(a),a)
            open(r+'/'+f,'w').write(s.replace(a,b))
        assert sh('gofmt -l memdb resp server util config logger main.go',r).stdout=='' , 'gofmt '+g['id']
        diff=sh('git diff',r).stdout
        open(d+'/patch.diff','w').write(diff)
        # changed lines from the original repository?
        orig=0; mine=0
        files=set(f for f,_,_ in g['edits'])
        for f in files:
            bl=sh('git blame -s HEAD -- '+f,r).stdout.splitlines()
            for l in sh('git diff -U0 -- '+f,r).stdout.splitlines():
                if l.startswith('@@'):
                    x=l.split()[1][1:].split(','); st=int(x[0]); n=int(x[1]) if len(x)>1 else 1
                    for k in range(st,st+n):
                        if bl[k-1].startswith('^0578c7f'): orig+=1
                        else: mine+=1
        open(d+'/demo_test.go','w').write(g['demo'])
        race='-race ' if g.get('race') else ''
        open(d+'/demo.sh','w').write('''#!/bin/bash
# Exits 0 when the behaviour is right, nonzero when it is broken. Run in the repository.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
export GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod
echo "{\\"Replace\\": {\\"$PWD/%s/zz_demo_test.go\\": \\"$D/demo_test.go\\"}}" > "$T/overlay.json"
timeout 250 go test %s-vet=off -count=1 -overlay "$T/overlay.json" -run 'TestZZDemo' ./%s
'''%(g['pkg'],race,g['pkg']))
        json.dump({"property":g['prop'],"needs":g['needs'],"what_it_breaks":g['breaks']},open(d+'/meta.json','w'),indent=1)
        b=sh(ENV+'go build ./... && go vet ./... ; go build ./...',r)
        t=sh(ENV+'go test ./memdb ./resp ./util 2>&1',r)
        d1=sh('bash %s/demo.sh'%d,r)
        d0=sh('bash %s/demo.sh'%d,o)
        print('%-26s %s build=%d tests=%s demo(patched)=%d demo(clean)=%d lines orig=%d mine=%d'%(g['id'],g['prop'],b.returncode,'ok' if t.returncode==0 else 'FAIL',d1.returncode,d0.returncode,orig,mine))
        if t.returncode: print('\n'.join(x for x in t.stdout.splitlines() if 'FAIL' in x)[:600])
        if d0.returncode: print(d0.stdout[-1500:],d0.stderr[-500:])
        if not d1.returncode: print('   demo does not fail', d1.stdout[-300:])
    finally:
        shutil.rmtree(tmp)
