#!/usr/bin/env python3
# plant.py FILE.py...: each defines PLANTS = [dict(id, property, edits=[(file, old, new[, n])], demo, needs, breaks, race=False)].
# Confirms each in a scratch copy of /repo and writes /verif/seeded/<id>/.
import sys, os, subprocess, shutil, tempfile, json, re
S='/verif/seeded'; H=os.path.dirname(os.path.abspath(__file__))
ENV=dict(os.environ,HOME='/root',PATH='/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin',GOENV='off',GOTOOLCHAIN='local',GOPROXY='off',GOFLAGS='-mod=mod',GOWORK='off',GOPATH='/root/go',GOMODCACHE='/root/go/pkg/mod',GOCACHE='/root/.cache/go-build')
def sh(c,cwd,t=300):
    try: p=subprocess.run(c,shell=True,cwd=cwd,env=ENV,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,timeout=t)
    except subprocess.TimeoutExpired: return 124,'timeout'
    return p.returncode,p.stdout.decode(errors='replace')
def plant(p):
    d=tempfile.mkdtemp(prefix='plant')
    try:
        r=d+'/repo'; subprocess.check_call(['cp','-a','/repo',r])
        for e in p['edits']:
            f,old,new=e[:3]; s=open(r+'/'+f).read(); c=s.count(old)
            if len(e)>3 and e[3]=='all': s=s.replace(old,new)
            elif len(e)>3:
                parts=s.split(old); n=e[3]
                if c<=n: return 'edit matches %d times, want index %d: %r'%(c,n,old[:60])
                s=old.join(parts[:n+1])+new+old.join(parts[n+1:])
            else:
                if c!=1: return 'edit matches %d times: %r'%(c,old[:80])
                s=s.replace(old,new)
            open(r+'/'+f,'w').write(s)
        sh('gofmt -l .',r)
        rc,patch=sh('git diff',r)
        o=d+'/'+p['id']; os.mkdir(o)
        open(o+'/patch.diff','w').write(patch)
        demo=p['demo']
        imps=sorted(set(re.findall(r'\b(fmt|time|sync|math|errors|strings|bytes|runtime|binary)\.',demo)))
        m={'binary':'encoding/binary'}
        imp='import (\n\t"testing"\n'+''.join('\t"%s"\n'%m.get(i,i) for i in imps if i)+')\n'
        open(o+'/demo_test.go','w').write('package sortedmap\n\n'+imp+'\n'+demo.strip()+'\n')
        shutil.copy(H+'/support_test.go',o); shutil.copy(H+'/demo.sh',o)
        if p.get('race'): open(o+'/race','w').write('run with -race\n')
        json.dump({'property':p['property'],'needs':p['needs'],'what_it_breaks':p['breaks']},open(o+'/meta.json','w'),indent=1)
        rc,out=sh('go build ./... && go vet . >/dev/null 2>&1; go build ./...',r)
        if rc: return 'build: '+out[-800:]
        for i in range(2):
            rc,out=sh('go test -vet=off -count=1 -timeout 100s ./...',r)
            if rc: return 'existing tests fail: '+'\n'.join(l for l in out.split('\n') if 'FAIL' in l or 'panic' in l or '_test.go' in l)[:600]
        rc,out=sh('bash %s/demo.sh'%o,r)
        if rc==0: return 'demo passes with the patch'
        if 'build failed' in out or 'setup failed' in out: return 'demo does not build: '+out[:800]
        why=[l for l in out.split('\n') if '_test.go' in l or 'panic' in l or 'RACE' in l][:1]
        sh('git checkout -q -- .',r)
        for i in range(3):
            rc,out=sh('bash %s/demo.sh'%o,r)
            if rc: return 'demo fails on the clean tree: '+out[:800]
        rc,out=sh('git apply --check %s/patch.diff'%o,'/repo')
        if rc: return 'apply: '+out
        shutil.rmtree(S+'/'+p['id'],ignore_errors=True); shutil.copytree(o,S+'/'+p['id'])
        return 'OK '+(why[0].strip() if why else out[:100])
    finally: shutil.rmtree(d,ignore_errors=True)
only=None
from concurrent.futures import ThreadPoolExecutor
jobs=[]
for a in sys.argv[1:]:
    if a.startswith('id='): only=a[3:].split(','); continue
    g={}; exec(open(a).read(),g); jobs+=g['PLANTS']
if only: jobs=[j for j in jobs if j['id'] in only]
with ThreadPoolExecutor(4) as ex:
    for j,r in zip(jobs,ex.map(plant,jobs)): print(j['id'],':',r,flush=True)
