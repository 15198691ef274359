import re
EDITS=[]
def FUNC(d):
    # the eviction goroutine hands over through a condition variable; a WaitGroup and a Once appear
    p=d+'/btree.go'; s=open(p).read()
    s=s.replace('''type btreeNodeCacheStruct struct {
''','''type btreeNodeCacheStruct struct {
	once sync.Once
	idle *sync.Cond
''')
    s=s.replace('''	for {
		bPlusTreeCache.Lock()
		if (0 ==''','''	bPlusTreeCache.once.Do(func() { bPlusTreeCache.idle = sync.NewCond(bPlusTreeCache) })

	for {
		bPlusTreeCache.Lock()
		if (0 ==''')
    s=s.replace('			bPlusTreeCache.drainerActive = false\n','			bPlusTreeCache.drainerActive = false\n			bPlusTreeCache.idle.Broadcast()\n')
    open(p,'w').write(s)
    p=d+'/llrb_tree.go'; s=open(p).read()
    # a hand-made lock out of a condition variable
    s=s.replace('type llrbTreeStruct struct {\n	sync.Mutex\n','''
type turnstile struct {
	sync.Mutex
	cond *sync.Cond
	busy bool
}

func (t *turnstile) Lock() {
	t.Mutex.Lock()
	if t.cond == nil {
		t.cond = sync.NewCond(&t.Mutex)
	}
	for t.busy {
		t.cond.Wait()
	}
	t.busy = true
	t.Mutex.Unlock()
}

func (t *turnstile) Unlock() {
	t.Mutex.Lock()
	t.busy = false
	t.cond.Signal()
	t.Mutex.Unlock()
}

type llrbTreeStruct struct {
	turnstile
''')
    open(p,'w').write(s)
