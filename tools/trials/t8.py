BT='btree.go'
def T(i,p,e): return (i,p,e)
MV='				movedNodeFromSibling.parentNode = '
def guard(s): return '				if movedNodeFromSibling.loaded {\n	'+s+'\n				}'
TR=[
T('split-parent-loaded',['C05','C18'],[(BT,"			splitValueAsNode.parentNode = newRightSiblingNode\n","			if splitValueAsNode.loaded {\n				splitValueAsNode.parentNode = newRightSiblingNode\n			}\n")]),
T('borrowL-parent-loaded',['C05'],[(BT,"				movedNodeFromSibling.parentNode = rebalanceNode\n				rebalanceNode.nonLeafLeftChild = movedNodeFromSibling","				if movedNodeFromSibling.loaded {\n					movedNodeFromSibling.parentNode = rebalanceNode\n				}\n				rebalanceNode.nonLeafLeftChild = movedNodeFromSibling")]),
T('borrowR-parent-loaded',['C05'],[(BT,"				movedNodeFromSibling.parentNode = rebalanceNode\n				ok, err = rebalanceNode.kvLLRB.Put(movedKeyFromParent, movedNodeFromSibling)","				if movedNodeFromSibling.loaded {\n					movedNodeFromSibling.parentNode = rebalanceNode\n				}\n				ok, err = rebalanceNode.kvLLRB.Put(movedKeyFromParent, movedNodeFromSibling)")]),
T('mergeL-parent-loaded',['C05'],[(BT,"			rebalanceNode.nonLeafLeftChild.parentNode = leftSiblingNode\n","			if rebalanceNode.nonLeafLeftChild.loaded {\n				rebalanceNode.nonLeafLeftChild.parentNode = leftSiblingNode\n			}\n")]),
T('mergeL2-parent-loaded',['C05'],[(BT,"			if ok {\n				movedNodeFromSibling.parentNode = leftSiblingNode","			if ok && movedNodeFromSibling.loaded {\n				movedNodeFromSibling.parentNode = leftSiblingNode")]),
T('mergeR-parent-loaded',['C05'],[(BT,"			rightSiblingNode.nonLeafLeftChild.parentNode = rebalanceNode\n","			if rightSiblingNode.nonLeafLeftChild.loaded {\n				rightSiblingNode.nonLeafLeftChild.parentNode = rebalanceNode\n			}\n")]),
T('mergeR2-parent-loaded',['C05'],[(BT,"			if ok {\n				movedNodeFromSibling.parentNode = rebalanceNode","			if ok && movedNodeFromSibling.loaded {\n				movedNodeFromSibling.parentNode = rebalanceNode")]),
T('borrowL-noarr',['C02','C05'],[(BT,"				tree.arrangePrefixSumTree(leftSiblingNode)\n				tree.arrangePrefixSumTree(rebalanceNode)\n","				tree.arrangePrefixSumTree(rebalanceNode)\n")]),
T('borrowR-noarr',['C02','C05'],[(BT,"				tree.arrangePrefixSumTree(rebalanceNode)\n				tree.arrangePrefixSumTree(rightSiblingNode)\n","				tree.arrangePrefixSumTree(rebalanceNode)\n")]),
T('borrowL-parent-noarr',['C02','C05'],[(BT,"			tree.arrangePrefixSumTree(parentNode)\n\n			tree.markNodeDirty(leftSiblingNode)","			if rebalanceNode.leaf {\n				tree.arrangePrefixSumTree(parentNode)\n			}\n\n			tree.markNodeDirty(leftSiblingNode)")]),
T('mergeL-noarr',['C02','C05'],[(BT,"			if !leftSiblingNode.leaf {\n				tree.arrangePrefixSumTree(leftSiblingNode)\n			}\n\n			tree.arrangePrefixSumTree(parentNode)","			tree.arrangePrefixSumTree(parentNode)")]),
T('shrink-noarr',['C02','C05'],[(BT,"			tree.root = rebalanceNode\n\n			if !rebalanceNode.leaf {\n				tree.arrangePrefixSumTree(rebalanceNode)\n			}","			tree.root = rebalanceNode")]),
T('load-noinit',['C18','C07'],[(BT,"				tree.initNodeAsEvicted(childNode)\n			}\n\n			err = tree.arrange","			}\n\n			err = tree.arrange")]),
T('load-keeps-lens',['C09'],[(BT,"			if node.items != onDiskNode.Items {","			if node.items != onDiskNode.Items && 0 != onDiskNode.Items {")]),
T('load-items-only-root',['C09'],[(BT,"			if node.items != onDiskNode.Items {","			if node.root && node.items != onDiskNode.Items {")]),
T('load-saved-leaf',['C09','C08'],[(BT,"			node.items = savedItems\n			node.leaf = savedLeaf\n","			node.leaf = savedLeaf\n")]),
T('layout-nopurge-leaf',['C18','C07'],[(BT,"	if !wasLoaded {\n		err = tree.purgeNode(node, true)","	if !wasLoaded && !node.leaf {\n		err = tree.purgeNode(node, true)")]),
T('layout-dirty',['C07'],[(BT,"	if 0 != node.objectLength {\n		prev","	if 0 != node.objectLength && !node.dirty {\n		prev")]),
T('prefix-early-stop',['C02','C05'],[(BT,"	if updatedChildNode.root {\n		return\n	}\n\n	prefixSumNode := updatedChildNode","	if updatedChildNode.root || nil == updatedChildNode.parentNode {\n		return\n	}\n\n	prefixSumNode := updatedChildNode")]),
T('flushnode-purge-dirtyonly',['C18','C06','C05'],[(BT,"	if andPurge {\n		tree.markNodeEvicted(node)","	if andPurge && !node.root {\n		tree.markNodeEvicted(node)")]),
T('post-len-payload',['C07','C11','C05'],[(BT,"	node.objectLength = uint64(len(onDiskNodeBuf))","	node.objectLength = uint64(len(onDiskNode.Payload)) + 14")]),
T('newroot-nodirty',['C05','C12'],[(BT,"		tree.initNodeAsEvicted(tree.root)\n		tree.markNodeDirty(tree.root)\n","		tree.initNodeAsEvicted(tree.root)\n")]),
T('discard-root-after',['C07'],[(BT,"			tree.markNodeToBeDiscarded(tree.root)\n\n			leftSiblingNode.root = true\n			leftSiblingNode.parentNode = nil\n			tree.root = leftSiblingNode\n","			leftSiblingNode.root = true\n			leftSiblingNode.parentNode = nil\n			tree.root = leftSiblingNode\n\n			tree.markNodeToBeDiscarded(parentNode)\n")]),
T('rearr-stop-clean',['C05','C12'],[(BT,"	tree.markNodeDirty(node)\n\n	if !node.root {\n		err = tree.rearr","	if !node.dirty {\n		tree.markNodeDirty(node)\n	}\n\n	if !node.root {\n		err = tree.rearr")]),
]
