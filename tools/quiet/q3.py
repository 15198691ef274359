import re
EDITS=[]
def body(s,name,new):
    m=re.search(r'^func \([^)]*\) '+name+r'\(.*?^}\n',s,re.S|re.M); assert m,name
    return s[:m.start()]+new.lstrip('\n')+s[m.end():]
def FUNC(d):
    p=d+'/llrb_tree.go'; s=open(p).read()
    # the comparator's arguments the other way round
    n=s.count('tree.Compare(key, node.Key)'); print('swaps',n)
    s=s.replace('tree.Compare(key, node.Key)','tree.order(key, node.Key)')
    s+='''
func (tree *llrbTreeStruct) order(key Key, other Key) (result int, err error) {
	result, err = tree.Compare(other, key)
	result = -result
	return
}
'''
    open(p,'w').write(s)
    p=d+'/btree.go'; s=open(p).read()
    # children from right to left
    for f in('discardNode','touchNode','flushNode','purgeNode'):
        m=re.search(r'^func \([^)]*\) '+f+r'\(.*?^}\n',s,re.S|re.M); q=m.group(0)
        k=q.index('		if nil != node.nonLeafLeftChild {'); e=q.index('		numIndices, non')
        left=q[k:e]; q=q[:k]+q[e:]
        q=q.replace('for i := 0; i < numIndices; i++ {','for i := numIndices - 1; i >= 0; i-- {')
        z=q.index('			err = tree.%s(childNode'%f); z=q.index('\n		}\n',z)+5
        q=q[:z]+'\n'+left.rstrip()+'\n'+q[z:]
        s=s[:m.start()]+q+s[m.end():]
    # load: rebuild the sorted map from the last key to the first
    old='''			ok, nonShadowingErr := node.kvLLRB.Put(key, value)
			if nil != nonShadowingErr {
				err = nonShadowingErr
				return
			}
			if !ok {
				err = fmt.Errorf("Logic error: loadNode() call to Put() should have worked")
				return
			}
		}
'''
    assert s.count(old)==1
    s=s.replace(old,'''			keys = append(keys, key)
			values = append(values, value)
		}

		for i := len(keys) - 1; i >= 0; i-- {
			ok, nonShadowingErr := node.kvLLRB.Put(keys[i], values[i])
			if nil != nonShadowingErr {
				err = nonShadowingErr
				return
			}
			if !ok {
				err = fmt.Errorf("Logic error: loadNode() call to Put() should have worked")
				return
			}
		}
''')
    s=s.replace('		maxKeysPerNodeStruct  onDiskUint64Struct\n','		keys                  []Key\n		values                []Value\n		maxKeysPerNodeStruct  onDiskUint64Struct\n')
    # layout: bytes first, in a local report
    s=s.replace('''		prevObjectBytes, ok := layoutReport[node.objectNumber]
		if !ok {
			prevObjectBytes = 0
		}
		layoutReport[node.objectNumber] = prevObjectBytes + node.objectLength
''','''		layoutReport[node.objectNumber] += node.objectLength
''')
    s=s.replace('''		if keyAlreadyPresent {
				ok = false
			} else {
				err = tree.insertHere(node, key, value) // will also mark affected nodes dirty/used in LRU
				ok = true
				return
			}

			err = nil
			return
''','''		if !keyAlreadyPresent {
				ok, err = true, tree.insertHere(node, key, value)
			}
			return
''')
    s=s.replace('''	err = tree.purgeNode(tree.root, full) // will also mark node evicted in LRU

	return
''','''	return tree.purgeNode(tree.root, full)
''')
    open(p,'w').write(s)
    p=d+'/btree_validate.go'; s=open(p).read()
    open(p,'w').write(s)
