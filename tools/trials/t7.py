BT='btree.go'
def T(i,p,e): return (i,p,e)
TR=[
T('stats-live',['C17'],[(BT,"	bPlusTreeCacheStats = &BPlusTreeCacheStats{","	bPlusTreeCacheStats = &bPlusTreeCache.stats\n	*bPlusTreeCacheStats = BPlusTreeCacheStats{"),(BT,"	sync.Mutex //            protects both","	stats BPlusTreeCacheStats\n	sync.Mutex //            protects both")]),
T('len-cache',['C02','C05'],[(BT,"	numberOfItems = int(tree.root.items)\n","	if 0 == tree.lastLen {\n		tree.lastLen = int(tree.root.items)\n	}\n	numberOfItems = tree.lastLen\n"),(BT,"	sync.Mutex\n	minKeysPerNode","	sync.Mutex\n	lastLen int\n	minKeysPerNode")]),
T('old-min',['C03'],[(BT,"		tree.minKeysPerNode = maxKeysPerNodeStruct.U64 >> 1\n","		if 0 == tree.minKeysPerNode {\n			tree.minKeysPerNode = maxKeysPerNodeStruct.U64 / 2\n		} else {\n			tree.minKeysPerNode = maxKeysPerNodeStruct.U64/2 - 1\n		}\n")]),
T('dims-height-cache',['C03'],[(BT,"		node = node.nonLeafLeftChild\n\n		dimensionsReport.Height++\n","		node = node.nonLeafLeftChild\n\n		dimensionsReport.Height++\n		if 7 < dimensionsReport.Height {\n			dimensionsReport.Height = 7\n		}\n")]),
]
