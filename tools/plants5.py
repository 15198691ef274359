# planted bugs (fifth set)
PLANTS=[]
def P(id,prop,edits,demo,needs,breaks,race=False):
    PLANTS.append(dict(id=id,property=prop,edits=edits,demo=demo,needs=needs,breaks=breaks,race=race))
P('llrb-val-right','C09',[('llrb_validate.go','''	if nil != node.right {
		computedHeight += node.right.len

		err = node.right.validate()

		if nil != err {
			return
		}
	}
''','''	if nil != node.right {
		computedHeight += node.right.len

		if node.right.color == RED { // black links balance
			err = node.right.validate()

			if nil != err {
				return
			}
		}
	}
''')],"""
func TestDemo(t *testing.T) {
	tree := NewLLRBTree(CompareUint32, nil).(*llrbTreeStruct)
	for i := 0; i < 32; i++ {
		if ok, err := tree.Put(uint32(i), uint32(i)); err != nil || !ok {
			t.Fatal(ok, err)
		}
	}
	if err := tree.Validate(); err != nil {
		t.Fatal(err)
	}
	n := tree.root
	for n.right.right != nil {
		n = n.right
	}
	n.right.len += 3
	n.len += 3
	for p := tree.root; p != n; p = p.right {
		p.len += 3
	}
	if tree.Validate() == nil {
		t.Fatal("Validate accepts a map whose counts are wrong")
	}
}""",'a wrong count in a node reached through a right link','Validate of the ordered map does not check the right half')
P('bt-val-prefix-leaf','C09',[('btree_validate.go','''	expectedPrefixSumItems := node.items

	if nil != node.prefixSumLeftChild {''','''	expectedPrefixSumItems := node.items

	if node.leaf && (nil != node.prefixSumParent) && (nil != node.prefixSumParent.prefixSumParent) { // its parent accounts for it
		return nil
	}

	if nil != node.prefixSumLeftChild {''')],"""
func TestDemo(t *testing.T) {
	s := newMemStore()
	tree := NewBPlusTree(8, ku, s, nil)
	put(t, tree, seq(0, 40, 1)...)
	must(t, tree.Validate())
	root := tree.(*btreeTreeStruct).root
	tried := 0
	var all func(n *btreeNodeStruct)
	all = func(n *btreeNodeStruct) {
		if n == nil {
			return
		}
		l, r := n.prefixSumLeftChild, n.prefixSumRightChild
		if l != nil && r != nil && n.prefixSumParent != nil {
			tried++
			l.prefixSumItems += 2
			r.prefixSumItems -= 2
			if tree.Validate() == nil {
				t.Fatal("Validate accepts wrong prefix sums")
			}
			l.prefixSumItems -= 2
			r.prefixSumItems += 2
		}
		all(l)
		all(r)
	}
	all(root.rootPrefixSumChild)
	if tried == 0 {
		t.Fatal("the tree is too small")
	}
	must(t, tree.Validate())
}
""",'a wrong prefix sum or link two levels down the prefix-sum tree of resident leaves','Validate trusts the prefix sums of leaves deep in the prefix-sum tree')
P('bt-val-parent-clean','C09',[('btree_validate.go','''			if childNode.parentNode != node {''','''			if childNode.dirty && (childNode.parentNode != node) {''')],"""
func TestDemo(t *testing.T) {
	s := newMemStore()
	tree := NewBPlusTree(4, ku, s, nil)
	put(t, tree, seq(0, 20, 1)...)
	_, _, _, err := tree.Flush(false)
	must(t, err)
	must(t, tree.Validate())
	root := tree.(*btreeTreeStruct).root
	_, v, _, err := root.kvLLRB.GetByIndex(0)
	must(t, err)
	child := v.(*btreeNodeStruct)
	child.parentNode = child
	if tree.Validate() == nil {
		t.Fatal("Validate accepts a wrong parent link")
	}
	child.parentNode = root
	must(t, tree.Validate())
}""",'a flushed tree, resident, with a wrong parent link','Validate checks parent links of modified nodes only')
