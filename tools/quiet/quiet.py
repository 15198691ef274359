import os,subprocess,sys,time,shutil
# quiet.py FILE.py [props=C01,..]: applies all of EDITS (behaviour-preserving) to a copy of /repo and runs every check on it.
env=dict(os.environ,HOME='/root',PATH='/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin',GOENV='off',GOTOOLCHAIN='local',GOPROXY='off',GOFLAGS='-mod=mod',GOWORK='off',GOPATH='/root/go',GOMODCACHE='/root/go/pkg/mod',GOCACHE='/root/.cache/go-build',CGO_ENABLED='0')
g={}; exec(open(sys.argv[1]).read(),g); ED=g['EDITS']
opt=dict(a.split('=',1) for a in sys.argv[2:])
props=opt.get('props',','.join('C%02d'%i for i in range(1,20))).split(',')
name=os.path.basename(sys.argv[1])[:-3]
base='/tmp/quiet/'+name; shutil.rmtree(base,ignore_errors=True)
subprocess.run(f'mkdir -p {base}/repo {base}/out {base}/v/evidence; cd /repo && git archive HEAD | tar x -C {base}/repo; cp -r /verif/harness {base}/h; cp /verif/properties.jsonl /verif/known_findings.txt {base}/v/; sed -i s,/repo,{base}/repo,g {base}/h/go.mod',shell=True,check=True)
bad=0
for e in ED:
    f,old,new=e[:3]; n=e[3] if len(e)>3 else None
    p=f'{base}/repo/{f}'; s=open(p).read(); c=s.count(old)
    if callable(new): pass
    if n is None and c!=1 or n!='all' and n is not None and c<=n or c==0: print('edit matches',c,repr(old[:80])); bad=1; continue
    if n is None or n=='all': s=s.replace(old,new)
    else: pp=s.split(old); s=old.join(pp[:n+1])+new+old.join(pp[n+1:])
    open(p,'w').write(s)
if 'FUNC' in g: g['FUNC'](base+'/repo')
r=subprocess.run('go build ./... && go vet . ; go test -vet=off -count=1 -timeout 60s ./... 2>&1 | tail -15',shell=True,cwd=base+'/repo',env=env,capture_output=True,text=True)
print(r.stdout[-900:],r.stderr[:1500])
if bad or 'ok' not in r.stdout: sys.exit(1)
for fl in ('race','seq'):
    b=base+'/mc-'+fl
    r=subprocess.run(f'cd {base}/h && go build -o {base}/xform ./cmd/xform && {base}/xform -repo {base}/repo -inject {base}/h/inject/verifsync -out {base}/out && '+('CGO_ENABLED=1 go build -race' if fl=='race' else 'go build')+f' -overlay {base}/out/overlay.json -o {b} ./mc',shell=True,env=env,capture_output=True,text=True)
    if r.returncode: print('MCBUILD',r.stderr[:800]); sys.exit(1)
for c in props:
    t0=time.time()
    b=base+('/mc-race' if c in('C14','C15','C16') else '/mc-seq')
    try:
        r=subprocess.run([b,'-prop',c,'-tier','quick','-verif',base+'/v']+(['-budget',opt['B']] if 'B' in opt else []),env=env,capture_output=True,text=True,timeout=900)
        print(name,c,'rc',r.returncode,'%.0fs'%(time.time()-t0),flush=True)
        if r.returncode: print(r.stdout[:2500],r.stderr[:600],flush=True)
    except subprocess.TimeoutExpired: print(name,c,'TIMEOUT',flush=True)
shutil.rmtree(base)
