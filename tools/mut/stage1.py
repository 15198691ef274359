import json,os,subprocess,shutil,sys,concurrent.futures as cf
muts=json.load(open('/tmp/mut/muts.json'))
env=dict(os.environ,HOME='/root',PATH='/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin',GOENV='off',GOTOOLCHAIN='local',GOPROXY='off',GOFLAGS='-mod=mod',GOWORK='off',GOPATH='/root/go',GOMODCACHE='/root/go/pkg/mod',GOCACHE='/root/.cache/go-build',CGO_ENABLED='0')
W=int(sys.argv[1])
import queue
pool=queue.Queue()
for i in range(W):
    d=f'/tmp/mut/w{i}'
    shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
    subprocess.run(f'cd /repo && git archive HEAD | tar x -C {d}',shell=True,check=True)
    pool.put(d)
done={}
if os.path.exists('/tmp/mut/stage1.json'): done={int(k):v for k,v in json.load(open('/tmp/mut/stage1.json')).items()}
def run(i):
    if i in done: return i,done[i]
    m=muts[i]; d=pool.get()
    p=f'{d}/{m["File"]}'
    src=open('/repo/'+m['File'],'rb').read()
    try:
        s=src[:m['Start']]+m['New'].encode()+src[m['End']:]
        open(p,'wb').write(s)
        r=subprocess.run(['go','build','./...'],cwd=d,env=env,capture_output=True)
        if r.returncode: return i,'nobuild'
        try:
            r=subprocess.run(['go','test','-vet=off','-count=1','-failfast','-timeout','60s','./...'],cwd=d,env=env,capture_output=True,timeout=90)
            return i,'survive' if r.returncode==0 else 'killed'
        except subprocess.TimeoutExpired: return i,'killed'
    finally:
        open(p,'wb').write(src); pool.put(d)
n=0
with cf.ThreadPoolExecutor(W) as ex:
    for i,v in ex.map(run,range(len(muts))):
        done[i]=v; n+=1
        if n%100==0: json.dump(done,open('/tmp/mut/stage1.json','w'))
json.dump(done,open('/tmp/mut/stage1.json','w'))
import collections
print(collections.Counter(done.values()))
