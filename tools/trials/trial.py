import json,os,subprocess,shutil,sys,threading,queue,time
# trial.py FILE.py [id=a,b] [B=20s] [W=2]: TR=[(id, [props], [(file,old,new[,n])...])]
env=dict(os.environ,HOME='/root',PATH='/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin',GOENV='off',GOTOOLCHAIN='local',GOPROXY='off',GOFLAGS='-mod=mod',GOWORK='off',GOPATH='/root/go',GOMODCACHE='/root/go/pkg/mod',GOCACHE='/root/.cache/go-build',CGO_ENABLED='0')
g={}; exec(open(sys.argv[1]).read(),g); TR=g['TR']
opt=dict(a.split('=',1) for a in sys.argv[2:])
if 'id' in opt: TR=[t for t in TR if t[0] in opt['id'].split(',')]
B=opt.get('B'); W=int(opt.get('W','2'))
q=queue.Queue(); [q.put(t) for t in TR]
def run(t,base):
    id,props,edits=t
    subprocess.run(f'rm -rf {base}/repo; mkdir -p {base}/repo {base}/out {base}/v/evidence; cd /repo && git archive HEAD | tar x -C {base}/repo',shell=True,check=True)
    for e in edits:
        f,old,new=e[:3]; p=f'{base}/repo/{f}'; s=open(p).read(); c=s.count(old)
        n=e[3] if len(e)>3 else None
        if n is None:
            if c!=1: return f'edit matches {c}: {old[:60]!r}'
            s=s.replace(old,new)
        elif n=='all': s=s.replace(old,new)
        else:
            if c<=n: return f'edit matches {c}, want {n}'
            pp=s.split(old); s=old.join(pp[:n+1])+new+old.join(pp[n+1:])
        open(p,'w').write(s)
    r=subprocess.run(['go','build','./...'],cwd=base+'/repo',env=env,capture_output=True,text=True)
    if r.returncode: return 'BUILD '+r.stderr[:400]
    tests='ok'
    for i in range(2):
        r=subprocess.run(['go','test','-vet=off','-count=1','-timeout','60s','./...'],cwd=base+'/repo',env=env,capture_output=True,text=True)
        if r.returncode: tests='TESTS-KILL '+' '.join(l for l in r.stdout.split('\n') if l.startswith('--- FAIL') or 'panic:' in l)[:100]; break
    if tests!='ok' and 'force' not in opt: return tests
    out=[tests]
    for c in props:
        race=c in('C14','C15','C16'); b=base+('/mcr' if race else '/mc')
        r=subprocess.run(f'cd {base}/h && go build -o {base}/xform ./cmd/xform && {base}/xform -repo {base}/repo -inject {base}/h/inject/verifsync -out {base}/out && '+(f'CGO_ENABLED=1 go build -race' if race else 'go build')+f' -overlay {base}/out/overlay.json -o {b} ./mc',shell=True,env=env,capture_output=True,text=True)
        if r.returncode: return 'MCBUILD '+r.stderr[:300]
        t0=time.time()
        try:
            r=subprocess.run([b,'-prop',c,'-tier','quick','-verif',base+'/v']+(['-budget',B] if B else []),env=env,capture_output=True,text=True,timeout=900)
            l=[x for x in r.stdout.split('\n') if 'VIOLATION' in x or 'error' in x.lower()]
            out.append(f'{c}:{"DETECTED" if r.returncode==1 else "missed" if r.returncode==0 else "rc%d %s"%(r.returncode,r.stderr[-300:])} {time.time()-t0:.0f}s')
            open(f'/tmp/trial/{id}.{c}.out','w').write(r.stdout+r.stderr)
        except subprocess.TimeoutExpired: out.append(c+':timeout')
    return ' | '.join(out)
def work(n):
    base=f'/tmp/trial/b{n}'; shutil.rmtree(base,ignore_errors=True); os.makedirs(base+'/v/evidence')
    subprocess.run(f'cp -r /verif/harness {base}/h; cp /verif/properties.jsonl /verif/known_findings.txt {base}/v/; sed -i s,/repo,{base}/repo,g {base}/h/go.mod',shell=True,check=True)
    while True:
        try: t=q.get_nowait()
        except queue.Empty: break
        try: print(t[0],':',run(t,base),flush=True)
        except Exception as e: print(t[0],'EXC',e,flush=True)
    shutil.rmtree(base,ignore_errors=True)
ts=[threading.Thread(target=work,args=(n,)) for n in range(W)]; [t.start() for t in ts]; [t.join() for t in ts]
