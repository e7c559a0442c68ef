#!/usr/bin/env python3
"""mutants.py filter MUTS N SEED OUT | run ENGINE IN OUT  -- mutation testing of the checks.
filter: samples N mutants that build and pass the stable tests (memdb resp util).
run: gives each to the checks of its file's properties until one reports a violation."""
import sys,json,random,subprocess,os,shutil,concurrent.futures as cf,time,threading
MAP={'memdb/strings.go':'C05 C06 C12 C11 C15 C17','memdb/list.go':'C07 C12 C13 C11 C15 C17','memdb/set.go':'C09 C12 C13 C11 C15 C17','memdb/hash.go':'C08 C06 C12 C13 C11 C15 C17',
'memdb/list_struct.go':'C07 C13','memdb/hash_struct.go':'C08 C06 C13','memdb/set_struct.go':'C09 C13','memdb/keys.go':'C10 C11 C19 C12 C15 C17','resp/parser.go':'C02 C01 C26','util/util.go':'C19 C14',
'config/config.go':'C20 C24','server/handler.go':'C18 C21 C01 C03 C26','logger/logger.go':'C25','memdb/concurrentMap.go':'C10 C14 C17 C13','memdb/memdb.go':'C11 C05 C15','memdb/locks.go':'C16 C17 C15','resp/data.go':'C03 C02','main.go':'C27','server/server.go':'C23','memdb/command.go':'C21'}
ENV=dict(os.environ,GOPROXY='off',GOSUMDB='off',GOFLAGS='-mod=mod')
def apply(r,m):
    p=r+'/'+m['file']; b=open(p,'rb').read()
    open(p,'wb').write(b[:m['off']]+m['text'].encode()+b[m['off']+m['len']:]); return b
def filt(muts,n,seed,out):
    ms=[json.loads(l) for l in open(muts)]
    random.Random(int(seed)).shuffle(ms)
    r='/tmp/mutf'; shutil.rmtree(r,ignore_errors=True); shutil.copytree('/repo',r,symlinks=True)
    k=0
    with open(out,'w') as o:
        for m in ms:
            if k>=int(n): break
            b=apply(r,m)
            try:
                if subprocess.run('nice -n 19 go build -p 1 -o /dev/null . && timeout 20 nice -n 19 go test -p 1 -vet=off ./memdb ./resp ./util',shell=True,cwd=r,env=ENV,capture_output=True).returncode==0:
                    k+=1; o.write(json.dumps(m)+'\n'); o.flush()
            finally: open(r+'/'+m['file'],'wb').write(b)
    shutil.rmtree(r)
def one(eng,i,m):
    r='/tmp/mut%d'%i; shutil.rmtree(r,ignore_errors=True); shutil.copytree('/repo',r,symlinks=True)
    vd='/tmp/mutv%d'%i; os.makedirs(vd+'/evidence',exist_ok=True); os.makedirs(vd+'/replays',exist_ok=True)
    for x in ('harness','known_findings.txt'):
        if not os.path.exists(vd+'/'+x): os.symlink('/verif/'+x,vd+'/'+x)
    try:
        apply(r,m); t0=time.time(); log=[]
        for p in (os.environ.get('PROPS') or MAP[m['file']]).split():
            q=subprocess.run([eng,'-repo',r,'-verif',vd,'-prop',p,'-novalidate','-j','2','-budget','240'],capture_output=True,text=True,env=dict(ENV,VERIF_TIER='quick'))
            if q.returncode==1:
                v=[l for l in q.stdout.splitlines() if l.startswith('violation')]
                return 'KILLED',p,time.time()-t0,(v or [''])[0][:120]
            if q.returncode not in (0,1): log.append('%s rc=%d %s'%(p,q.returncode,(q.stdout+q.stderr)[:200]))
            elif 'reduced' in q.stdout: log.append(p+' reduced')
        return 'SURVIVED','',time.time()-t0,'; '.join(log)
    finally:
        shutil.rmtree(r); shutil.rmtree(vd,ignore_errors=True)
def run(eng,inp,out):
    ms=[json.loads(l) for l in open(inp)]
    lk=threading.Lock()
    with open(out,'a') as o, cf.ThreadPoolExecutor(int(os.environ.get("PAR","4"))) as ex:
        def go(t):
            i,m=t; res=one(eng,i,m)
            with lk: o.write('%s %s %.0fs %s:%d %s | %s\n'%(res[0],res[1],res[2],m['file'],m['line'],m['desc'],res[3])); o.flush()
        list(ex.map(go,enumerate(ms)))
if sys.argv[1]=='filter': filt(*sys.argv[2:])
else: run(*sys.argv[2:])
