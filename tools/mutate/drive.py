import subprocess,sys,os,random,shutil,json,threading,queue
random.seed(int(os.environ.get('MSEED','1')))
NW=int(os.environ.get('NW','2'))
FILES={}

def order(f):
    if 'libs/egts' in f: return ['ME1','ME2']
    if 'server.go' in f: return ['MS1','MS2']
    if 'packet-gen' in f: return ['C28']
    if '/store/' in f: return ['MT']
    if 'storage/' in f: return ['MT','MS']
    if 'config' in f: return ['C26','C25']
    return ['C26','C18','C25','C15','C20']
def compose(V):
    c=json.load(open(V+'/checks.json'))
    def comb(ids):
        seen=[];jobs=[]
        for i in ids:
            for jb in c[i]['jobs']:
                if jb.get('tier')=='thorough' or jb['harness'] in('VerifTwoObjects',) : continue
                if jb.get('maxsteps') and jb['harness'] in ('VerifWide','VerifLong','VerifBulk','VerifFraming'): continue
                if jb['harness'] in ('VerifCutOff',) and 'x' in seen: continue
                k=json.dumps(jb,sort_keys=True)
                if k in seen: continue
                seen.append(k); jobs.append(jb)
        return {'jobs':jobs,'bounds':['m'],'assumptions':[]}
    c['MS']=comb(['C15','C16','C17','C18','C19','C20','C21','C23'])
    c['ME']=comb(['C%02d'%k for k in range(1,15)]+['C29'])
    slow={}
    for f in ('MS','ME'):
        e=json.load(open('/tmp/mut/%s.json'%f))
        def find(o):
            if isinstance(o,dict):
                if isinstance(o.get('jobs'),list): return o['jobs']
                for v in o.values():
                    r=find(v)
                    if r: return r
        for j in find(e):
            h=j['job'].split(' ')[0]; slow[h]=max(slow.get(h,0),0)
            slow[j['job']]=j['wall_s']
    import itertools
    def explode(m):
        a=[];b=[]
        for jb in c[m]['jobs']:
            ps=jb.get('params') or {}
            for vs in itertools.product(*[ps[k] for k in ps]):
                d=dict(jb); d.pop('covers',None)
                d['params']={k:[v] for k,v in zip(ps,vs)}
                name=' '.join([jb['harness']]+['%s=%s'%(k,v) for k,v in sorted(zip(ps,vs))])
                w=slow.get(name,99)
                (a if w<2.3 else b if w<15 or 'C23' in name or m=='MS' else []).append(d)
        c[m+'1']=dict(c[m],jobs=a); c[m+'2']=dict(c[m],jobs=b)
        print(m,len(a),len(b))
    explode('MS'); explode('ME')
    c['MT']=comb(['C22','C24','C25','C27'])
    json.dump(c,open(V+'/checks.json','w'))
env=dict(os.environ)
def sh(cmd,cwd,timeout,extra={}):
    e=dict(env); e.update(extra)
    try:
        p=subprocess.run(cmd,cwd=cwd,shell=True,timeout=timeout,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,env=e,text=True,errors='replace')
        return p.returncode,p.stdout
    except subprocess.TimeoutExpired as x:
        return 124,''
q=queue.Queue()
frac=float(sys.argv[1])
for f in sys.argv[2:]:
    out=subprocess.run(['/tmp/mut/mut','/repo/'+f],stdout=subprocess.PIPE,text=True).stdout
    l=[x.split('\t') for x in out.strip().split('\n') if x]
    if frac<1: l=random.sample(l,min(len(l),max(1,int(len(l)*frac))))
    for i,line,d in l: q.put((f,int(i),int(line),d))
print(q.qsize(),'mutants',flush=True)
lock=threading.Lock()
def worker(w):
    R='/tmp/mut/r%d'%w; V='/tmp/mut/v%d'%w
    subprocess.run('rm -rf %s %s; cp -a /repo %s; mkdir %s; cd /verif && cp -a run.sh checks.json engine harness rt tools known_findings.json %s/; ls -A /verif >/dev/null; mkdir -p %s/evidence'%(R,V,R,V,V,V),shell=True)
    for x in os.listdir('/verif'):
        if x not in('.git','seeded','evidence') and not os.path.exists(V+'/'+x):
            subprocess.run(['cp','-a','/verif/'+x,V+'/'])
    compose(V)
    while True:
        try: f,i,line,d=q.get_nowait()
        except queue.Empty: return
        sh('git checkout -q -- .',R,60)
        rc,o=sh('/tmp/mut/mut %s/%s %d %s/%s'%(R,f,i,R,f),R,20)
        res=None
        rc,o=sh('. /opt/vp/env.sh; go build ./... ',R,300)
        if rc: res='nobuild'
        else:
            rc,o=sh('. /opt/vp/env.sh; mod=github.com/ElectroUnion/egts-gate; go test -vet=off -count=1 -timeout 60s $(go list ./... | grep -vxF -e $mod/cli/receiver -e $mod/cli/receiver/server)',R,200)
            if rc: res='tests'
        if not res:
            log=[]
            for c in order(f):
                rc,o=sh('ulimit -v 12000000; exec ./run.sh '+c,V,400,{'VERIF_REPO':R,'VERIF_TIER':'quick','VERIF_SEED':'1'})
                if rc==1: res='caught '+c; break
                if rc!=0: log.append('%s rc=%d'%(c,rc))
            if not res:
                res='SURVIVED '+' '.join(log)
                diff=sh('git diff -U1 '+f,R,20)[1]
                # gofmt noise is small
                with lock:
                    open('/tmp/mut/survivors.txt','a').write('### %s:%d %s | %s\n%s\n'%(f,line,d,res,diff[:3000]))
        with lock: print(f,line,d,'=>',res,flush=True)
ts=[threading.Thread(target=worker,args=(k,)) for k in range(NW)]
[t.start() for t in ts]; [t.join() for t in ts]
