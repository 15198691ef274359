import json,os,subprocess,shutil,sys,time,threading,queue,random
muts=json.load(open('/tmp/mut/muts.json'))
env=dict(os.environ,HOME='/root',PATH='/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin',GOENV='off',GOTOOLCHAIN='local',GOPROXY='off',GOFLAGS='-mod=mod',GOWORK='off',GOPATH='/root/go',GOMODCACHE='/root/go/pkg/mod',GOCACHE='/root/.cache/go-build',CGO_ENABLED='0')
W=int(sys.argv[1]); PROCS=sys.argv[2]; BUDGET=sys.argv[3]; STOP=float(sys.argv[4])
RES='/tmp/mut/stage2.json'
res={int(k):v for k,v in json.load(open(RES)).items()} if os.path.exists(RES) else {}
lock=threading.Lock(); taken=set(res)
def order(m):
    k=m['Kind']; r=random.Random(m['Start']*7+len(k)).random()
    return {'del':0,'nolock':0,'iffalse':0.2,'iftrue':0.2,'op':0.3,'const':0.4,'bool':0.2,'swap':0.5,'swallow':1.2}[k]+r
def nxt():
    with lock:
        try: d={int(k):v for k,v in json.load(open('/tmp/mut/stage1.json')).items()}
        except Exception: return None
        c=[i for i,v in d.items() if v=='survive' and i not in taken]
        if not c: return None
        i=min(c,key=lambda i:order(muts[i])); taken.add(i); return i
def checks(m):
    f=m['File']
    if f=='common_api.go': return ['C10','C02']
    if f.startswith('llrb'): return ['C01','C19','C03','C13','C14','C02','C09'] if 'dump' not in f else ['C19','C08']
    if 'validate' in f: return ['C09','C08','C02','C05','C15']
    if 'dump' in f: return ['C19','C08','C15','C12']
    return ['C02','C17','C18','C07','C06','C13','C03','C12','C09','C08','C04','C11','C05','C16','C15']
def work(n):
    base=f'/tmp/mut/s2_{n}'; shutil.rmtree(base,ignore_errors=True); os.makedirs(base+'/v/evidence'); os.makedirs(base+'/repo'); os.makedirs(base+'/out')
    subprocess.run(f'cd /repo && git archive HEAD | tar x -C {base}/repo; cp -r /verif/harness {base}/h; cp /verif/properties.jsonl /verif/known_findings.txt {base}/v/; sed -i s,/repo,{base}/repo,g {base}/h/go.mod',shell=True,check=True)
    subprocess.run(f'cd {base}/h && go build -o {base}/xform ./cmd/xform',shell=True,check=True,env=env)
    while time.time()<STOP:
        i=nxt()
        if i is None: time.sleep(20); continue
        m=muts[i]; p=f'{base}/repo/{m["File"]}'; src=open('/repo/'+m['File'],'rb').read()
        t=time.time(); v='none'
        try:
            open(p,'wb').write(src[:m['Start']]+m['New'].encode()+src[m['End']:])
            built=set()
            for c in checks(m):
                race=c in('C14','C15','C16'); b=base+('/mcr' if race else '/mc')
                if race not in built:
                    if race and m['Kind'] in ('swallow',): break
                    subprocess.run(f'{base}/xform -repo {base}/repo -inject {base}/h/inject/verifsync -out {base}/out && cd {base}/h && '+(f'CGO_ENABLED=1 go build -race' if race else 'go build')+f' -overlay {base}/out/overlay.json -o {b} ./mc',shell=True,check=True,env=env)
                    built.add(race)
                try:
                    r=subprocess.run([b,'-prop',c,'-tier','quick','-verif',base+'/v','-budget',BUDGET],env=dict(env,GOMAXPROCS=PROCS),capture_output=True,text=True,timeout=300)
                    if r.returncode==1: v=c; break
                    if r.returncode!=0: v=f'{c}:rc{r.returncode}:'+(r.stderr[-300:]); break
                except subprocess.TimeoutExpired:
                    v=c+':timeout'; break
        except Exception as e: v='error '+str(e)
        finally: open(p,'wb').write(src)
        with lock:
            res[i]=v; json.dump(res,open(RES,'w'))
        if v=='none' or ':' in v or v.startswith('error'):
            print(i,v,m['Kind'],m['File'],m['Line'],m['Fn'],repr(m['Old'][:90]),'->',repr(m['New'][:60]),f'{time.time()-t:.0f}s',flush=True)
ts=[threading.Thread(target=work,args=(n,)) for n in range(W)]
[t.start() for t in ts]; [t.join() for t in ts]
