From 3a0d950cfab3b69b15237a4cc0398bf8b98a4412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:49 +0000
Subject: [PATCH 01/43] fix: a labels-only lookup on a position index no longer
 panics

---
 core/indexer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/indexer.go b/core/indexer.go
index ac9fc56..5ced50e 100755
--- a/core/indexer.go
+++ b/core/indexer.go
@@ -486,7 +486,7 @@ func (indexer *Indexer) internalLookup(
 			indexedDoc := types.IndexedDoc{}
 
 			// 当为 LocsIndex 时计算关键词紧邻距离
-			if indexer.initOptions.IndexType == types.LocsIndex {
+			if indexer.initOptions.IndexType == types.LocsIndex && len(tokens) > 0 {
 				// 计算有多少关键词是带有距离信息的
 				numTokensWithLocations := 0
 				for i, t := range table[:len(tokens)] {
-- 
2.43.0


From 38c3ff17666c209d9db5a43ce1cf34129085a14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:41 +0000
Subject: [PATCH 02/43] fix: logic clauses without an expression use the query
 keywords, not another clause's expression

---
 core/indexer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/indexer.go b/core/indexer.go
index 5ced50e..317a46d 100755
--- a/core/indexer.go
+++ b/core/indexer.go
@@ -571,6 +571,8 @@ func (indexer *Indexer) LogicLookup(
 	// 如果存在与搜索键, 则要求所有的与搜索键都有对应的反向表
 	mustTable := make([]*KeywordIndices, 0)
 
+	// 没有表达式的子句使用查询关键词, 不受其它子句表达式的影响
+	keywords := logicExpr
 	if len(logic.Expr.Must) > 0 {
 		logicExpr = logic.Expr.Must
 	}
@@ -590,6 +592,7 @@ func (indexer *Indexer) LogicLookup(
 	// 2. 逻辑或和逻辑与之间是与关系
 	shouldTable := make([]*KeywordIndices, 0)
 
+	logicExpr = keywords
 	if len(logic.Expr.Should) > 0 {
 		logicExpr = logic.Expr.Should
 	}
@@ -611,6 +614,7 @@ func (indexer *Indexer) LogicLookup(
 	// 可以不存在逻辑非搜索（NotInTable为空), 允许逻辑非搜索键对应的反向表为空
 	notInTable := make([]*KeywordIndices, 0)
 
+	logicExpr = keywords
 	if len(logic.Expr.NotIn) > 0 {
 		logicExpr = logic.Expr.NotIn
 	}
-- 
2.43.0


From bbfbd1184eef84e1ee26a7c4cfb9fefef728612f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:41 +0000
Subject: [PATCH 03/43] fix: a must or should flag without any key no longer
 panics or empties the result

---
 core/indexer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/indexer.go b/core/indexer.go
index 317a46d..96c2009 100755
--- a/core/indexer.go
+++ b/core/indexer.go
@@ -604,7 +604,7 @@ func (indexer *Indexer) LogicLookup(
 				shouldTable = append(shouldTable, indices)
 			}
 		}
-		if len(shouldTable) == 0 {
+		if len(shouldTable) == 0 && len(logicExpr) > 0 {
 			// 如果存在逻辑或搜索键， 但是对应的反向表全部为空， 则返回
 			return
 		}
@@ -629,7 +629,7 @@ func (indexer *Indexer) LogicLookup(
 
 	// 开始检索
 	numDocs = 0
-	if logic.Must == true || len(logic.Expr.Must) > 0 {
+	if len(mustTable) > 0 {
 		// 如果存在逻辑与检索
 		for idx := indexer.getIndexLen(mustTable[0]) - 1; idx >= 0; idx-- {
 			baseDocId := indexer.getDocId(mustTable[0], idx)
-- 
2.43.0


From 83087c0fba63a5be839bec0db8eac937f74cfb1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:41 +0000
Subject: [PATCH 04/43] fix: logical lookups no longer return documents waiting
 for removal

---
 core/indexer.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/core/indexer.go b/core/indexer.go
index 96c2009..6317f49 100755
--- a/core/indexer.go
+++ b/core/indexer.go
@@ -640,6 +640,11 @@ func (indexer *Indexer) LogicLookup(
 				}
 			}
 
+			if indexer.tableLock.docsState[baseDocId] != 0 {
+				// 等待删除的文档
+				continue
+			}
+
 			mustFound := indexer.findInMustTable(mustTable[1:], baseDocId)
 			shouldFound := indexer.findInShouldTable(shouldTable, baseDocId)
 			notInFound := indexer.findInNotInTable(notInTable, baseDocId)
@@ -666,7 +671,8 @@ func (indexer *Indexer) LogicLookup(
 		// 当前直接返回 Not 逻辑数据
 		for i := 0; i < len(notInTable); i++ {
 			for _, docid := range notInTable[i].docIds {
-				if indexer.findInNotInTable(notInTable, docid) {
+				if indexer.tableLock.docsState[docid] == 0 &&
+					indexer.findInNotInTable(notInTable, docid) {
 					uintDocIds = append(uintDocIds, docid)
 				}
 			}
@@ -877,7 +883,8 @@ func (indexer *Indexer) unionTable(table []*KeywordIndices,
 	// 求并集
 	for i := 0; i < len(table); i++ {
 		for _, docid := range table[i].docIds {
-			if !indexer.findInNotInTable(notInTable, docid) {
+			if indexer.tableLock.docsState[docid] == 0 &&
+				!indexer.findInNotInTable(notInTable, docid) {
 				found := false
 				for _, v := range docIds {
 					if v == docid {
-- 
2.43.0


From 0af082a10dfb3896a6bd271c7f7ee6096f7e0b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:56 +0000
Subject: [PATCH 05/43] fix: the last version of a document added several times
 before a flush wins

---
 core/indexer.go | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/core/indexer.go b/core/indexer.go
index 6317f49..f0d2353 100755
--- a/core/indexer.go
+++ b/core/indexer.go
@@ -129,6 +129,7 @@ func (indexer *Indexer) AddDocToCache(doc *types.DocIndex, forceUpdate bool) {
 		indexer.tableLock.Lock()
 
 		position := 0
+		newDocs := make(types.DocsIndex, 0)
 		for i := 0; i < indexer.addCacheLock.addCachePointer; i++ {
 			docIndex := indexer.addCacheLock.addCache[i]
 
@@ -136,10 +137,7 @@ func (indexer *Indexer) AddDocToCache(doc *types.DocIndex, forceUpdate bool) {
 			if ok && docState <= 1 {
 				// ok && docState == 0 表示存在于索引中，需先删除再添加
 				// ok && docState == 1 表示不一定存在于索引中，等待删除，需先删除再添加
-				if position != i {
-					indexer.addCacheLock.addCache[position], indexer.addCacheLock.addCache[i] =
-						indexer.addCacheLock.addCache[i], indexer.addCacheLock.addCache[position]
-				}
+				indexer.addCacheLock.addCache[position] = docIndex
 
 				if docState == 0 {
 					// delete docs
@@ -153,10 +151,15 @@ func (indexer *Indexer) AddDocToCache(doc *types.DocIndex, forceUpdate bool) {
 					indexer.numDocs--
 				}
 				position++
-			} else if !ok {
-				indexer.tableLock.docsState[docIndex.DocId] = 2
+			} else {
+				if !ok {
+					indexer.tableLock.docsState[docIndex.DocId] = 2
+				}
+				newDocs = append(newDocs, docIndex)
 			}
 		}
+		// 两部分都保持加入的先后顺序, 同一文档后加入的版本有效
+		copy(indexer.addCacheLock.addCache[position:], newDocs)
 
 		indexer.tableLock.Unlock()
 		if indexer.RemoveDocToCache("0", forceUpdate) {
@@ -168,7 +171,7 @@ func (indexer *Indexer) AddDocToCache(doc *types.DocIndex, forceUpdate bool) {
 		indexer.addCacheLock.addCachePointer = position
 
 		indexer.addCacheLock.Unlock()
-		sort.Sort(addCachedDocs)
+		sort.Stable(addCachedDocs)
 		indexer.AddDocs(&addCachedDocs)
 	} else {
 		indexer.addCacheLock.Unlock()
-- 
2.43.0


From f3ddd639889517594cfb19dc2fb063ab1e6cdef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:52 +0000
Subject: [PATCH 06/43] fix: updates of indexed documents no longer overflow
 the add cache

---
 core/indexer.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/indexer.go b/core/indexer.go
index f0d2353..aeafe3a 100755
--- a/core/indexer.go
+++ b/core/indexer.go
@@ -162,7 +162,9 @@ func (indexer *Indexer) AddDocToCache(doc *types.DocIndex, forceUpdate bool) {
 		copy(indexer.addCacheLock.addCache[position:], newDocs)
 
 		indexer.tableLock.Unlock()
-		if indexer.RemoveDocToCache("0", forceUpdate) {
+		// ADDCACHE 已被等待删除的文档占满时必须强制删除, 否则再无空位
+		force := forceUpdate || position >= indexer.initOptions.DocCacheSize
+		if indexer.RemoveDocToCache("0", force) || force {
 			// 只有当存在于索引表中的文档已被删除，其才可以重新加入到索引表中
 			position = 0
 		}
-- 
2.43.0


From fc084fc9e2cddd850ba786633f64e6da4e9a657a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:02 +0000
Subject: [PATCH 07/43] fix: a document removed while being added can be added
 again

---
 core/indexer.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/indexer.go b/core/indexer.go
index aeafe3a..dab4ba8 100755
--- a/core/indexer.go
+++ b/core/indexer.go
@@ -201,6 +201,8 @@ func (indexer *Indexer) AddDocs(docs *types.DocsIndex) {
 		if ok && docState == 1 {
 			// 如果此时 docState 仍为 1，说明该文档需被删除
 			// docState 合法状态为 nil & 2，保证一定不会插入已经在索引表中的文档
+			// 清除状态, 否则该文档再也不能加入
+			delete(indexer.tableLock.docsState, doc.DocId)
 			continue
 		}
 
-- 
2.43.0


From ba881baa553ecaf0c02f0c96b643d3ece6194b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:11 +0000
Subject: [PATCH 08/43] fix: concurrent additions and removals on one index no
 longer deadlock or share cache memory

---
 core/indexer.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/core/indexer.go b/core/indexer.go
index dab4ba8..21ede0a 100755
--- a/core/indexer.go
+++ b/core/indexer.go
@@ -126,6 +126,8 @@ func (indexer *Indexer) AddDocToCache(doc *types.DocIndex, forceUpdate bool) {
 
 	docSize := indexer.addCacheLock.addCachePointer >= indexer.initOptions.DocCacheSize
 	if docSize || forceUpdate {
+		// 加锁顺序与 RemoveDocToCache 一致: removeCacheLock 先于 tableLock
+		indexer.removeCacheLock.Lock()
 		indexer.tableLock.Lock()
 
 		position := 0
@@ -141,11 +143,9 @@ func (indexer *Indexer) AddDocToCache(doc *types.DocIndex, forceUpdate bool) {
 
 				if docState == 0 {
 					// delete docs
-					indexer.removeCacheLock.Lock()
 					indexer.removeCacheLock.removeCache[indexer.removeCacheLock.removeCachePointer] =
 						docIndex.DocId
 					indexer.removeCacheLock.removeCachePointer++
-					indexer.removeCacheLock.Unlock()
 
 					indexer.tableLock.docsState[docIndex.DocId] = 1
 					indexer.numDocs--
@@ -162,6 +162,7 @@ func (indexer *Indexer) AddDocToCache(doc *types.DocIndex, forceUpdate bool) {
 		copy(indexer.addCacheLock.addCache[position:], newDocs)
 
 		indexer.tableLock.Unlock()
+		indexer.removeCacheLock.Unlock()
 		// ADDCACHE 已被等待删除的文档占满时必须强制删除, 否则再无空位
 		force := forceUpdate || position >= indexer.initOptions.DocCacheSize
 		if indexer.RemoveDocToCache("0", force) || force {
@@ -172,9 +173,10 @@ func (indexer *Indexer) AddDocToCache(doc *types.DocIndex, forceUpdate bool) {
 		addCachedDocs := indexer.addCacheLock.addCache[position:indexer.addCacheLock.addCachePointer]
 		indexer.addCacheLock.addCachePointer = position
 
-		indexer.addCacheLock.Unlock()
+		// addCachedDocs 与 addCache 共享内存, 加入索引之后才能解锁
 		sort.Stable(addCachedDocs)
 		indexer.AddDocs(&addCachedDocs)
+		indexer.addCacheLock.Unlock()
 	} else {
 		indexer.addCacheLock.Unlock()
 	}
@@ -292,9 +294,10 @@ func (indexer *Indexer) RemoveDocToCache(docId string, forceUpdate bool) bool {
 	if indexer.removeCacheLock.removeCachePointer > 0 && docSizeFU {
 		removeCacheddocs := indexer.removeCacheLock.removeCache[:indexer.removeCacheLock.removeCachePointer]
 		indexer.removeCacheLock.removeCachePointer = 0
-		indexer.removeCacheLock.Unlock()
+		// removeCacheddocs 与 removeCache 共享内存, 删除之后才能解锁
 		sort.Sort(removeCacheddocs)
 		indexer.RemoveDocs(&removeCacheddocs)
+		indexer.removeCacheLock.Unlock()
 		return true
 	}
 
-- 
2.43.0


From 8f3719532903cd67be30ff61539a12b0d578e919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:21 +0000
Subject: [PATCH 09/43] fix: Indexer.HasDoc reads the document state under the
 table lock

---
 core/indexer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/indexer.go b/core/indexer.go
index 21ede0a..2354713 100755
--- a/core/indexer.go
+++ b/core/indexer.go
@@ -99,6 +99,9 @@ func (indexer *Indexer) getDocId(ti *KeywordIndices, i int) string {
 
 // HasDoc doc is exist return true
 func (indexer *Indexer) HasDoc(docId string) bool {
+	indexer.tableLock.RLock()
+	defer indexer.tableLock.RUnlock()
+
 	docState, ok := indexer.tableLock.docsState[docId]
 	if ok && docState == 0 {
 		return true
-- 
2.43.0


From d560f17714c36b19e24cac201759e11be00f3bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:30 +0000
Subject: [PATCH 10/43] fix: token proximity is minimal when token positions
 overlap

---
 core/indexer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/indexer.go b/core/indexer.go
index 2354713..89ef7d1 100755
--- a/core/indexer.go
+++ b/core/indexer.go
@@ -786,7 +786,7 @@ func computeTokenProximity(table []*KeywordIndices,
 				continue
 			}
 			for iNext+1 < len(nextLocations) &&
-				nextLocations[iNext+1] < currentLocation {
+				nextLocations[iNext+1] < currentLocation+len(tokens[i-1]) {
 				iNext++
 			}
 
@@ -803,7 +803,7 @@ func computeTokenProximity(table []*KeywordIndices,
 				}
 			}
 
-			// 最优解的状态转移只发生在左右最接近的位置
+			// 最优解的状态转移只发生在 token 结束处左右最接近的位置
 			update(iCurrent, iNext)
 			update(iCurrent, iNext+1)
 		}
-- 
2.43.0


From da355e3e1ee01040828b8a0fbd5e8caf042f49b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:06 +0000
Subject: [PATCH 11/43] fix: re-indexing a document with different content no
 longer leaves the old version in another shard

---
 engine.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/engine.go b/engine.go
index 5a83df7..e2dcde3 100755
--- a/engine.go
+++ b/engine.go
@@ -75,6 +75,9 @@ type Engine struct {
 	numTokenIndexAdded   uint64
 	numDocsStored        uint64
 
+	// 每个文档第一次加入时的 hash, 决定其所在的 shard
+	docHashes map[string]uint32
+
 	// 记录初始化参数
 	initOptions types.EngineOpts
 	initialized bool
@@ -288,6 +291,7 @@ func (engine *Engine) Init(options types.EngineOpts) {
 	options.Init()
 	engine.initOptions = options
 	engine.initialized = true
+	engine.docHashes = make(map[string]uint32)
 
 	if !options.NotUseGse {
 		if !engine.loaded {
@@ -410,7 +414,15 @@ func (engine *Engine) internalIndexDoc(docId string, data types.DocData,
 		atomic.AddUint64(&engine.numForceUpdatingReqs, 1)
 	}
 
-	hash := murmur.Sum32(fmt.Sprintf("%s%s", docId, data.Content))
+	// 文档总是留在第一次加入时的 shard, 否则内容改变之后旧版本会留在另一个 shard 中
+	engine.loc.Lock()
+	hash, found := engine.docHashes[docId]
+	if !found {
+		hash = murmur.Sum32(fmt.Sprintf("%s%s", docId, data.Content))
+		engine.docHashes[docId] = hash
+	}
+	engine.loc.Unlock()
+
 	engine.segmenterChan <- segmenterReq{
 		docId: docId, hash: hash, data: data, forceUpdate: forceUpdate}
 }
-- 
2.43.0


From 722f6cdea2bf56a267f2b60af638b200ef2a8220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:21 +0000
Subject: [PATCH 12/43] fix: HasDoc no longer grows the engine's index list

---
 riot.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/riot.go b/riot.go
index ffc121b..be398b0 100644
--- a/riot.go
+++ b/riot.go
@@ -23,7 +23,6 @@ import (
 	"encoding/gob"
 
 	"github.com/go-ego/murmur"
-	"github.com/go-ego/riot/core"
 	"github.com/go-ego/riot/types"
 	toml "github.com/go-vgo/gt/conf"
 )
@@ -105,8 +104,6 @@ func NewEngine(conf ...interface{}) *Engine {
 // HasDoc if the document is exist return true
 func (engine *Engine) HasDoc(docId string) bool {
 	for shard := 0; shard < engine.initOptions.NumShards; shard++ {
-		engine.indexers = append(engine.indexers, core.Indexer{})
-
 		has := engine.indexers[shard].HasDoc(docId)
 
 		if has {
-- 
2.43.0


From 2ddf0dc1e0722566d22ca5293bdf073733f52d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:28 +0000
Subject: [PATCH 13/43] fix: SearchDoc and SearchID answer count-only requests
 instead of panicking

---
 engine.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/engine.go b/engine.go
index e2dcde3..7106cb0 100755
--- a/engine.go
+++ b/engine.go
@@ -751,9 +751,11 @@ func (engine *Engine) Ranks(request types.SearchReq, rankOpts types.RankOpts,
 // This function is thread safe, return not IDonly
 func (engine *Engine) SearchDoc(request types.SearchReq) (output types.SearchDoc) {
 	resp := engine.Search(request)
+	// CountDocsOnly 时 resp.Docs 为 nil
+	docs, _ := resp.Docs.(types.ScoredDocs)
 	return types.SearchDoc{
 		BaseResp: resp.BaseResp,
-		Docs:     resp.Docs.(types.ScoredDocs),
+		Docs:     docs,
 	}
 }
 
@@ -762,9 +764,11 @@ func (engine *Engine) SearchDoc(request types.SearchReq) (output types.SearchDoc
 func (engine *Engine) SearchID(request types.SearchReq) (output types.SearchID) {
 	// return types.SearchID(engine.Search(request))
 	resp := engine.Search(request)
+	// CountDocsOnly 时 resp.Docs 为 nil
+	docs, _ := resp.Docs.(types.ScoredIDs)
 	return types.SearchID{
 		BaseResp: resp.BaseResp,
-		Docs:     resp.Docs.(types.ScoredIDs),
+		Docs:     docs,
 	}
 }
 
-- 
2.43.0


From 742d5c119430fc92d796b4aaf7031ca1b9e35605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:36 +0000
Subject: [PATCH 14/43] fix: request counters are read atomically

---
 counters.go | 16 ++++++++++------
 engine.go   | 13 +++++++------
 2 files changed, 17 insertions(+), 12 deletions(-)

diff --git a/counters.go b/counters.go
index b625429..ccbe958 100755
--- a/counters.go
+++ b/counters.go
@@ -15,32 +15,36 @@
 
 package riot
 
+import (
+	"sync/atomic"
+)
+
 // NumTokenAdded added token index number
 func (engine *Engine) NumTokenAdded() uint64 {
-	return engine.numTokenIndexAdded
+	return atomic.LoadUint64(&engine.numTokenIndexAdded)
 }
 
 // NumIndexed documents indexed number
 func (engine *Engine) NumIndexed() uint64 {
-	return engine.numDocsIndexed
+	return atomic.LoadUint64(&engine.numDocsIndexed)
 }
 
 // NumRemoved documents removed number
 func (engine *Engine) NumRemoved() uint64 {
-	return engine.numDocsRemoved
+	return atomic.LoadUint64(&engine.numDocsRemoved)
 }
 
 // NumTokenIndexAdded added token index number, deprecated
 func (engine *Engine) NumTokenIndexAdded() uint64 {
-	return engine.numTokenIndexAdded
+	return atomic.LoadUint64(&engine.numTokenIndexAdded)
 }
 
 // NumDocsIndexed documents indexed number, deprecated
 func (engine *Engine) NumDocsIndexed() uint64 {
-	return engine.numDocsIndexed
+	return atomic.LoadUint64(&engine.numDocsIndexed)
 }
 
 // NumDocsRemoved documents removed number, deprecated
 func (engine *Engine) NumDocsRemoved() uint64 {
-	return engine.numDocsRemoved
+	return atomic.LoadUint64(&engine.numDocsRemoved)
 }
diff --git a/engine.go b/engine.go
index 7106cb0..6015419 100755
--- a/engine.go
+++ b/engine.go
@@ -220,7 +220,7 @@ func (engine *Engine) Store() {
 		runtime.Gosched()
 
 		inx := atomic.LoadUint64(&engine.numDocsIndexed)
-		numDoced := engine.numIndexingReqs == inx
+		numDoced := atomic.LoadUint64(&engine.numIndexingReqs) == inx
 
 		if numDoced {
 			break
@@ -356,7 +356,7 @@ func (engine *Engine) Init(options types.EngineOpts) {
 		engine.Store()
 	}
 
-	atomic.AddUint64(&engine.numDocsStored, engine.numIndexingReqs)
+	atomic.AddUint64(&engine.numDocsStored, atomic.LoadUint64(&engine.numIndexingReqs))
 }
 
 // IndexDoc add the document to the index
@@ -829,11 +829,12 @@ func (engine *Engine) Flush() {
 	for {
 		runtime.Gosched()
 
-		inxd := engine.numIndexingReqs == atomic.LoadUint64(&engine.numDocsIndexed)
-		numRm := engine.numRemovingReqs * uint64(engine.initOptions.NumShards)
+		numInx := atomic.LoadUint64(&engine.numIndexingReqs)
+		inxd := numInx == atomic.LoadUint64(&engine.numDocsIndexed)
+		numRm := atomic.LoadUint64(&engine.numRemovingReqs) * uint64(engine.initOptions.NumShards)
 		rmd := numRm == atomic.LoadUint64(&engine.numDocsRemoved)
 
-		nums := engine.numIndexingReqs == atomic.LoadUint64(&engine.numDocsStored)
+		nums := numInx == atomic.LoadUint64(&engine.numDocsStored)
 		stored := !engine.initOptions.UseStore || nums
 
 		if inxd && rmd && stored {
@@ -847,7 +848,7 @@ func (engine *Engine) Flush() {
 	for {
 		runtime.Gosched()
 
-		numf := engine.numForceUpdatingReqs * uint64(engine.initOptions.NumShards)
+		numf := atomic.LoadUint64(&engine.numForceUpdatingReqs) * uint64(engine.initOptions.NumShards)
 		forced := numf == atomic.LoadUint64(&engine.numDocsForceUpdated)
 
 		if forced {
-- 
2.43.0


From ae19e15136d7b36ede155912bc1094acb4e1dca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:02 +0000
Subject: [PATCH 15/43] fix: Flush does not mistake a later request's
 completion for an earlier one's

---
 engine.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/engine.go b/engine.go
index 6015419..2b313d3 100755
--- a/engine.go
+++ b/engine.go
@@ -829,12 +829,17 @@ func (engine *Engine) Flush() {
 	for {
 		runtime.Gosched()
 
+		// 先读完成数再读请求数, 否则之后提交的请求可能被当作之前的请求
+		numIndexed := atomic.LoadUint64(&engine.numDocsIndexed)
+		numRemoved := atomic.LoadUint64(&engine.numDocsRemoved)
+		numStored := atomic.LoadUint64(&engine.numDocsStored)
+
 		numInx := atomic.LoadUint64(&engine.numIndexingReqs)
-		inxd := numInx == atomic.LoadUint64(&engine.numDocsIndexed)
+		inxd := numInx == numIndexed
 		numRm := atomic.LoadUint64(&engine.numRemovingReqs) * uint64(engine.initOptions.NumShards)
-		rmd := numRm == atomic.LoadUint64(&engine.numDocsRemoved)
+		rmd := numRm == numRemoved
 
-		nums := numInx == atomic.LoadUint64(&engine.numDocsStored)
+		nums := numInx == numStored
 		stored := !engine.initOptions.UseStore || nums
 
 		if inxd && rmd && stored {
@@ -848,8 +853,9 @@ func (engine *Engine) Flush() {
 	for {
 		runtime.Gosched()
 
+		numForced := atomic.LoadUint64(&engine.numDocsForceUpdated)
 		numf := atomic.LoadUint64(&engine.numForceUpdatingReqs) * uint64(engine.initOptions.NumShards)
-		forced := numf == atomic.LoadUint64(&engine.numDocsForceUpdated)
+		forced := numf == numForced
 
 		if forced {
 			return
-- 
2.43.0


From 7a4286a68eac22e46397d98e9b674990ac5be9b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:12 +0000
Subject: [PATCH 16/43] fix: Flush waits until the rankers have applied every
 addition and removal

---
 engine.go        | 8 ++++++--
 ranker_worker.go | 4 ++++
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/engine.go b/engine.go
index 2b313d3..8879d91 100755
--- a/engine.go
+++ b/engine.go
@@ -74,6 +74,8 @@ type Engine struct {
 	numForceUpdatingReqs uint64
 	numTokenIndexAdded   uint64
 	numDocsStored        uint64
+	numDocsRanked        uint64
+	numDocsUnranked      uint64
 
 	// 每个文档第一次加入时的 hash, 决定其所在的 shard
 	docHashes map[string]uint32
@@ -832,12 +834,14 @@ func (engine *Engine) Flush() {
 		// 先读完成数再读请求数, 否则之后提交的请求可能被当作之前的请求
 		numIndexed := atomic.LoadUint64(&engine.numDocsIndexed)
 		numRemoved := atomic.LoadUint64(&engine.numDocsRemoved)
+		numRanked := atomic.LoadUint64(&engine.numDocsRanked)
+		numUnranked := atomic.LoadUint64(&engine.numDocsUnranked)
 		numStored := atomic.LoadUint64(&engine.numDocsStored)
 
 		numInx := atomic.LoadUint64(&engine.numIndexingReqs)
-		inxd := numInx == numIndexed
+		inxd := numInx == numIndexed && numInx == numRanked
 		numRm := atomic.LoadUint64(&engine.numRemovingReqs) * uint64(engine.initOptions.NumShards)
-		rmd := numRm == numRemoved
+		rmd := numRm == numRemoved && numRm == numUnranked
 
 		nums := numInx == numStored
 		stored := !engine.initOptions.UseStore || nums
diff --git a/ranker_worker.go b/ranker_worker.go
index ef60590..d2cb0ed 100755
--- a/ranker_worker.go
+++ b/ranker_worker.go
@@ -16,6 +16,8 @@
 package riot
 
 import (
+	"sync/atomic"
+
 	"github.com/go-ego/riot/types"
 )
 
@@ -54,6 +56,7 @@ func (engine *Engine) rankerAddDoc(shard int) {
 			engine.rankers[shard].AddDoc(request.docId, request.fields,
 				request.content, request.attri)
 		}
+		atomic.AddUint64(&engine.numDocsRanked, 1)
 	}
 }
 
@@ -76,5 +79,6 @@ func (engine *Engine) rankerRemoveDoc(shard int) {
 	for {
 		request := <-engine.rankerRemoveDocChans[shard]
 		engine.rankers[shard].RemoveDoc(request.docId)
+		atomic.AddUint64(&engine.numDocsUnranked, 1)
 	}
 }
-- 
2.43.0


From 9331902d00d2dfb0cf4268e3ccbd6941eb862ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:21 +0000
Subject: [PATCH 17/43] fix: stored documents are removed in order with writes
 and before Flush returns

---
 engine.go       | 12 ++++++++----
 store_worker.go |  7 +++++++
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/engine.go b/engine.go
index 8879d91..a8cbfbf 100755
--- a/engine.go
+++ b/engine.go
@@ -74,6 +74,7 @@ type Engine struct {
 	numForceUpdatingReqs uint64
 	numTokenIndexAdded   uint64
 	numDocsStored        uint64
+	numDocsUnstored      uint64
 	numDocsRanked        uint64
 	numDocsUnranked      uint64
 
@@ -469,10 +470,11 @@ func (engine *Engine) RemoveDoc(docId string, forceUpdate ...bool) {
 	}
 
 	if engine.initOptions.UseStore && docId != "0" {
-		// 从数据库中删除
+		// 从数据库中删除, 与写入经过同一个通道以保持先后顺序
 		hash := murmur.Sum32(docId) % uint32(engine.initOptions.StoreShards)
 
-		go engine.storeRemoveDoc(docId, hash)
+		engine.storeIndexDocChans[hash] <- storeIndexDocReq{
+			docId: docId, remove: true}
 	}
 }
 
@@ -837,13 +839,15 @@ func (engine *Engine) Flush() {
 		numRanked := atomic.LoadUint64(&engine.numDocsRanked)
 		numUnranked := atomic.LoadUint64(&engine.numDocsUnranked)
 		numStored := atomic.LoadUint64(&engine.numDocsStored)
+		numUnstored := atomic.LoadUint64(&engine.numDocsUnstored)
 
 		numInx := atomic.LoadUint64(&engine.numIndexingReqs)
 		inxd := numInx == numIndexed && numInx == numRanked
-		numRm := atomic.LoadUint64(&engine.numRemovingReqs) * uint64(engine.initOptions.NumShards)
+		numRmReqs := atomic.LoadUint64(&engine.numRemovingReqs)
+		numRm := numRmReqs * uint64(engine.initOptions.NumShards)
 		rmd := numRm == numRemoved && numRm == numUnranked
 
-		nums := numInx == numStored
+		nums := numInx == numStored && numRmReqs == numUnstored
 		stored := !engine.initOptions.UseStore || nums
 
 		if inxd && rmd && stored {
diff --git a/store_worker.go b/store_worker.go
index 6463dfd..f82bd66 100755
--- a/store_worker.go
+++ b/store_worker.go
@@ -27,12 +27,19 @@ import (
 type storeIndexDocReq struct {
 	docId string
 	data  types.DocData
+	// 从数据库中删除文档
+	remove bool
 	// data        types.DocumentIndexData
 }
 
 func (engine *Engine) storeIndexDoc(shard int) {
 	for {
 		request := <-engine.storeIndexDocChans[shard]
+		if request.remove {
+			engine.storeRemoveDoc(request.docId, uint32(shard))
+			atomic.AddUint64(&engine.numDocsUnstored, 1)
+			continue
+		}
 
 		// 得到 key
 		b := []byte(request.docId)
-- 
2.43.0


From d5a5ae003912e60eee6a51ad71ed417d26137d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:09 +0000
Subject: [PATCH 18/43] fix: a maximum close to the largest integer no longer
 overflows the ranking window

---
 core/ranker.go   | 2 +-
 engine.go        | 2 +-
 ranker_worker.go | 4 ++++
 3 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/core/ranker.go b/core/ranker.go
index 5742568..5ae73e1 100755
--- a/core/ranker.go
+++ b/core/ranker.go
@@ -112,7 +112,7 @@ func maxOutput(options types.RankOpts, docsLen int) (int, int) {
 	var start, end int
 	if options.MaxOutputs != 0 {
 		start = utils.MinInt(options.OutputOffset, docsLen)
-		end = utils.MinInt(options.OutputOffset+options.MaxOutputs, docsLen)
+		end = start + utils.MinInt(options.MaxOutputs, docsLen-start)
 		return start, end
 	}
 
diff --git a/engine.go b/engine.go
index a8cbfbf..9de0685 100755
--- a/engine.go
+++ b/engine.go
@@ -549,7 +549,7 @@ func maxRankOutput(rankOpts types.RankOpts, rankLen int) (int, int) {
 	}
 
 	start = utils.MinInt(rankOpts.OutputOffset, rankLen)
-	end = utils.MinInt(start+rankOpts.MaxOutputs, rankLen)
+	end = start + utils.MinInt(rankOpts.MaxOutputs, rankLen-start)
 	return start, end
 }
 
diff --git a/ranker_worker.go b/ranker_worker.go
index d2cb0ed..2674bf6 100755
--- a/ranker_worker.go
+++ b/ranker_worker.go
@@ -65,6 +65,10 @@ func (engine *Engine) rankerRank(shard int) {
 		request := <-engine.rankerRankChans[shard]
 		if request.options.MaxOutputs != 0 {
 			request.options.MaxOutputs += request.options.OutputOffset
+			if request.options.MaxOutputs < request.options.OutputOffset {
+				// 溢出时不设上限
+				request.options.MaxOutputs = 0
+			}
 		}
 		request.options.OutputOffset = 0
 		outputDocs, numDocs := engine.rankers[shard].Rank(request.docs,
-- 
2.43.0


From f59398cca0f0986967c4a44603c1cc1f98003f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:35 +0000
Subject: [PATCH 19/43] fix: repeated or trailing spaces in a query without
 segmenter no longer hide all results

---
 engine.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/engine.go b/engine.go
index 9de0685..4081ef3 100755
--- a/engine.go
+++ b/engine.go
@@ -519,7 +519,12 @@ func (engine *Engine) Tokens(request types.SearchReq) (tokens []string) {
 	if request.Text != "" {
 		reqText := strings.ToLower(request.Text)
 		if engine.initOptions.NotUseGse {
-			tokens = strings.Split(reqText, " ")
+			for _, t := range strings.Split(reqText, " ") {
+				// 连续或首尾的空格之间没有关键词
+				if t != "" {
+					tokens = append(tokens, t)
+				}
+			}
 		} else {
 			// querySegments := engine.segmenter.Segment([]byte(reqText))
 			// tokens = engine.Tokens([]byte(reqText))
-- 
2.43.0


From cf1bf2101e5258735bee4e8ad865061fb7be628e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:46 +0000
Subject: [PATCH 20/43] fix: documents are case-folded like queries before
 segmentation

---
 segment.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/segment.go b/segment.go
index dddd2c4..fb50ee9 100755
--- a/segment.go
+++ b/segment.go
@@ -131,7 +131,8 @@ func (engine *Engine) segmenterData(request segmenterReq) (TMap, int) {
 
 	if engine.initOptions.Using == 0 && request.data.Content != "" {
 		// Content 分词, 当文档正文不为空时，优先从内容分词中得到关键词
-		segments := engine.segmenter.ModeSegment([]byte(request.data.Content),
+		segments := engine.segmenter.ModeSegment(
+			[]byte(strings.ToLower(request.data.Content)),
 			engine.initOptions.GseMode)
 
 		for _, segment := range segments {
@@ -154,7 +155,8 @@ func (engine *Engine) segmenterData(request segmenterReq) (TMap, int) {
 
 	if engine.initOptions.Using == 1 && request.data.Content != "" {
 		// Content 分词, 当文档正文不为空时，优先从内容分词中得到关键词
-		segments := engine.segmenter.ModeSegment([]byte(request.data.Content),
+		segments := engine.segmenter.ModeSegment(
+			[]byte(strings.ToLower(request.data.Content)),
 			engine.initOptions.GseMode)
 
 		for _, segment := range segments {
-- 
2.43.0


From fab20ca7e9daf695eb34523746ab7cd0695c6434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:56 +0000
Subject: [PATCH 21/43] fix: split pieces no longer overwrite the positions of
 segmented tokens

---
 segment.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/segment.go b/segment.go
index fb50ee9..4d2eff0 100755
--- a/segment.go
+++ b/segment.go
@@ -109,7 +109,10 @@ func (engine *Engine) splitData(request segmenterReq) (TMap, int) {
 			tokenMap, numToken := engine.ForSplitData(strData, num)
 			numTokens += numToken
 			for key, val := range tokenMap {
-				tokensMap[key] = val
+				// 分词得到的位置优先
+				if _, ok := tokensMap[key]; !ok {
+					tokensMap[key] = val
+				}
 			}
 		}
 	}
-- 
2.43.0


From 712533606d684fc6ccbf7b74fcada6870469d732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:05 +0000
Subject: [PATCH 22/43] fix: pinyin expansions no longer overwrite the
 positions of tokens

---
 segment.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/segment.go b/segment.go
index 4d2eff0..796d5c9 100755
--- a/segment.go
+++ b/segment.go
@@ -239,8 +239,11 @@ func (engine *Engine) makeTokensMap(request segmenterReq) (map[string][]int, int
 
 		for i := 0; i < count; i++ {
 			str := strArr[i]
-			if !engine.stopTokens.IsStopToken(str) {
-				tokensMap[str] = []int{i}
+			if str != "" && !engine.stopTokens.IsStopToken(str) {
+				// 当正文或关键词中已存在时，若不判断，位置信息将会丢失
+				if _, ok := tokensMap[str]; !ok {
+					tokensMap[str] = []int{i}
+				}
 			}
 		}
 
-- 
2.43.0


From 1ebd48828df01e500cbaf0be77bf61c378bfb71c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:16 +0000
Subject: [PATCH 23/43] fix: phrase pinyin in several segmenter threads no
 longer races on the library's segmenter

---
 segment.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/segment.go b/segment.go
index 796d5c9..cfd0d7f 100755
--- a/segment.go
+++ b/segment.go
@@ -19,12 +19,16 @@ import (
 	// "fmt"
 
 	"strings"
+	"sync"
 
 	"github.com/go-ego/gpy"
 	"github.com/go-ego/gpy/phrase"
 	"github.com/go-ego/riot/types"
 )
 
+// phraseLock 保护 phrase 中的全局分词器
+var phraseLock sync.Mutex
+
 // TMap defines the tokens map type map[string][]int
 type TMap map[string][]int
 
@@ -324,6 +328,10 @@ func (engine *Engine) segmenterWorker() {
 // PinYin get the Chinese alphabet and abbreviation
 func (engine *Engine) PinYin(hans string) []string {
 	if engine.initOptions.UsePhrase {
+		// phrase 的分词器是全局变量
+		phraseLock.Lock()
+		defer phraseLock.Unlock()
+
 		if !engine.initOptions.NotUseGse {
 			phrase.WithGse(engine.segmenter)
 		}
-- 
2.43.0


From 64545c4a22d100276413da637e4f563ca7361ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:47 +0000
Subject: [PATCH 24/43] fix: iterating a store hands out its own copies and
 releases the iterator when the callback fails

---
 store/badger_store.go | 2 +-
 store/bolt_store.go   | 5 ++++-
 store/ldb_store.go    | 6 +++---
 3 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/store/badger_store.go b/store/badger_store.go
index faf8d9b..ca90154 100755
--- a/store/badger_store.go
+++ b/store/badger_store.go
@@ -117,7 +117,7 @@ func (s *Badger) ForEach(fn func(k, v []byte) error) error {
 		defer it.Close()
 		for it.Rewind(); it.Valid(); it.Next() {
 			item := it.Item()
-			key := item.Key()
+			key := item.KeyCopy(nil)
 			val, err := item.ValueCopy(nil)
 			if err != nil {
 				return err
diff --git a/store/bolt_store.go b/store/bolt_store.go
index b9988e2..9cfb4f5 100755
--- a/store/bolt_store.go
+++ b/store/bolt_store.go
@@ -102,7 +102,10 @@ func (s *Bolt) ForEach(fn func(k, v []byte) error) error {
 		b := tx.Bucket(gdocs)
 		c := b.Cursor()
 		for k, v := c.First(); k != nil; k, v = c.Next() {
-			if err := fn(k, v); err != nil {
+			// k and v are only valid during the transaction
+			key := append([]byte{}, k...)
+			val := append([]byte{}, v...)
+			if err := fn(key, val); err != nil {
 				return err
 			}
 		}
diff --git a/store/ldb_store.go b/store/ldb_store.go
index ee9eba8..0496933 100755
--- a/store/ldb_store.go
+++ b/store/ldb_store.go
@@ -87,16 +87,16 @@ func (s *Leveldb) Len() (leveldb.Sizes, error) {
 // ForEach get all key and value
 func (s *Leveldb) ForEach(fn func(k, v []byte) error) error {
 	iter := s.db.NewIterator(nil, nil)
+	defer iter.Release()
 	for iter.Next() {
 		// Remember that the contents of the returned slice should not be modified, and
 		// only valid until the next call to Next.
-		key := iter.Key()
-		val := iter.Value()
+		key := append([]byte{}, iter.Key()...)
+		val := append([]byte{}, iter.Value()...)
 		if err := fn(key, val); err != nil {
 			return err
 		}
 	}
-	iter.Release()
 	return iter.Error()
 }
 
-- 
2.43.0


From 9798e24d98aadaa71b807d05882497955e85366a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:56 +0000
Subject: [PATCH 25/43] fix: the bolt store tells an empty value from a missing
 key and returns its own copy

---
 store/bolt_store.go | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/store/bolt_store.go b/store/bolt_store.go
index 9cfb4f5..a6aad08 100755
--- a/store/bolt_store.go
+++ b/store/bolt_store.go
@@ -15,6 +15,7 @@
 package store
 
 import (
+	"errors"
 	"time"
 
 	bolt "go.etcd.io/bbolt"
@@ -22,6 +23,9 @@ import (
 
 var gdocs = []byte("gdocs")
 
+// ErrBoltNotFound is returned by Get when the key is not in the bolt store
+var ErrBoltNotFound = errors.New("bolt: key not found")
+
 // Bolt bolt store struct
 type Bolt struct {
 	db *bolt.DB
@@ -63,9 +67,18 @@ func (s *Bolt) Set(k []byte, v []byte) error {
 
 // Get executes a function within the context of a managed read-only transaction.
 // Any error that is returned from the function is returned from the View() method.
+//
+// The returned slice is its own copy. It returns ErrBoltNotFound if the DB
+// does not contains the key.
 func (s *Bolt) Get(k []byte) (b []byte, err error) {
 	err = s.db.View(func(tx *bolt.Tx) error {
-		b = tx.Bucket(gdocs).Get(k)
+		v := tx.Bucket(gdocs).Get(k)
+		if v == nil {
+			return ErrBoltNotFound
+		}
+
+		// v is only valid during the transaction
+		b = append([]byte{}, v...)
 		return nil
 	})
 	return
@@ -82,18 +95,13 @@ func (s *Bolt) Delete(k []byte) error {
 // Has returns true if the DB does contains the given key.
 func (s *Bolt) Has(k []byte) (bool, error) {
 	// return s.db.Exists(k)
-	var b []byte
+	has := false
 	err := s.db.View(func(tx *bolt.Tx) error {
-		b = tx.Bucket(gdocs).Get(k)
+		has = tx.Bucket(gdocs).Get(k) != nil
 		return nil
 	})
 
-	// b == nil
-	if err != nil || string(b) == "" {
-		return false, err
-	}
-
-	return true, nil
+	return has, err
 }
 
 // ForEach get all key and value
-- 
2.43.0


From 18ae2b03254e75bc4611c491897989e7ce9cd72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:06 +0000
Subject: [PATCH 26/43] fix: Has on a missing key of the badger store is no
 error

---
 store/badger_store.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/store/badger_store.go b/store/badger_store.go
index ca90154..a796208 100755
--- a/store/badger_store.go
+++ b/store/badger_store.go
@@ -94,12 +94,12 @@ func (s *Badger) Delete(k []byte) error {
 // Has returns true if the DB does contains the given key.
 func (s *Badger) Has(k []byte) (bool, error) {
 	// return s.db.Exists(k)
-	val, err := s.Get(k)
-	if string(val) == "" && err != nil {
-		return false, err
+	_, err := s.Get(k)
+	if err == badger.ErrKeyNotFound {
+		return false, nil
 	}
 
-	return true, err
+	return err == nil, err
 }
 
 // Len returns the size of lsm and value log files in bytes.
-- 
2.43.0


From 31ac55b59155cf95b75d9723af88a314501362c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:18 +0000
Subject: [PATCH 27/43] fix: a badger store that cannot be opened is reported,
 not fatal

---
 store/badger_store.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/store/badger_store.go b/store/badger_store.go
index a796208..3f9583b 100755
--- a/store/badger_store.go
+++ b/store/badger_store.go
@@ -15,8 +15,6 @@
 package store
 
 import (
-	"log"
-
 	"github.com/dgraph-io/badger"
 )
 
@@ -40,10 +38,10 @@ func OpenBadger(dbPath string) (Store, error) {
 	// opt.SyncWrites = true
 	kv, err := badger.Open(opt)
 	if err != nil {
-		log.Fatal("badger NewKV: ", err)
+		return nil, err
 	}
 
-	return &Badger{kv}, err
+	return &Badger{kv}, nil
 }
 
 // WALName is useless for this kv database
-- 
2.43.0


From 557c8d4ebf1483d6fff6615a6137ea398ea71c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:14 +0000
Subject: [PATCH 28/43] fix: gRPC searches without a logical clause no longer
 crash the server

---
 net/grpc/grpc.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/net/grpc/grpc.go b/net/grpc/grpc.go
index fe86fe3..cffc41d 100644
--- a/net/grpc/grpc.go
+++ b/net/grpc/grpc.go
@@ -96,16 +96,18 @@ func (s *server) Delete(ctx context.Context, in *pb.DeleteReq) (*pb.Reply, error
 func (s *server) Search(ctx context.Context, in *pb.SearchReq) (*pb.SearchReply, error) {
 
 	// time.Sleep(1 * time.Second)
+	// the logic and its expr are optional
+	expr := in.GetLogic().GetExpr()
 	logicExp := types.Expr{
-		Must:   in.Logic.Expr.Must,
-		Should: in.Logic.Expr.Should,
-		NotIn:  in.Logic.Expr.NotIn,
+		Must:   expr.GetMust(),
+		Should: expr.GetShould(),
+		NotIn:  expr.GetNotIn(),
 	}
 
 	logic := types.Logic{
-		Must:   in.Logic.Must,
-		Should: in.Logic.Should,
-		NotIn:  in.Logic.NotIn,
+		Must:   in.GetLogic().GetMust(),
+		Should: in.GetLogic().GetShould(),
+		NotIn:  in.GetLogic().GetNotIn(),
 		Expr:   logicExp,
 	}
 
-- 
2.43.0


From 0f8f695d32fa4af6a662fd610f1408c8774f83a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:40 +0000
Subject: [PATCH 29/43] fix: title and author of a document are kept by the
 gRPC interface

---
 net/grpc/grpc.go   | 6 ++++--
 net/grpc/search.go | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/net/grpc/grpc.go b/net/grpc/grpc.go
index cffc41d..b8d6d1f 100644
--- a/net/grpc/grpc.go
+++ b/net/grpc/grpc.go
@@ -56,8 +56,10 @@ func addDoc(in *pb.DocReq) {
 	}
 
 	attri := types.Attri{
-		Time: req.Time,
-		Ts:   req.Ts,
+		Title:  req.Title,
+		Author: req.Author,
+		Time:   req.Time,
+		Ts:     req.Ts,
 	}
 
 	data := types.DocData{
diff --git a/net/grpc/search.go b/net/grpc/search.go
index 0b1cb54..e516e6a 100644
--- a/net/grpc/search.go
+++ b/net/grpc/search.go
@@ -81,8 +81,10 @@ func rpcSearch(sea com.SearchArgs) *pb.SearchReply {
 	scoDocs := docs.Docs.(types.ScoredDocs)
 	for i := 0; i < len(scoDocs); i++ {
 		attri := &pb.Attri{
-			Time: scoDocs[i].Attri.(types.Attri).Time,
-			Ts:   scoDocs[i].Attri.(types.Attri).Ts,
+			Title:  scoDocs[i].Attri.(types.Attri).Title,
+			Author: scoDocs[i].Attri.(types.Attri).Author,
+			Time:   scoDocs[i].Attri.(types.Attri).Time,
+			Ts:     scoDocs[i].Attri.(types.Attri).Ts,
 		}
 
 		text := &pb.Text{
-- 
2.43.0


From d1eb8e072907ebd255e198dd4a06756c152df6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:52 +0000
Subject: [PATCH 30/43] fix: gRPC delete requests reach the engine instead of
 an uninitialised copy of it

---
 net/grpc/grpc.go   | 2 +-
 net/grpc/search.go | 5 ++---
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/net/grpc/grpc.go b/net/grpc/grpc.go
index b8d6d1f..70aece1 100644
--- a/net/grpc/grpc.go
+++ b/net/grpc/grpc.go
@@ -75,7 +75,7 @@ func addDoc(in *pb.DocReq) {
 
 // DelDoc delete doc
 func DelDoc(in *pb.DeleteReq) {
-	searcher.RemoveDoc(in.DocId, false)
+	com.Delete(in.DocId, false)
 }
 
 func (s *server) HeartBeat(ctx context.Context, in *pb.HeartReq) (*pb.Reply, error) {
diff --git a/net/grpc/search.go b/net/grpc/search.go
index e516e6a..fd36a81 100644
--- a/net/grpc/search.go
+++ b/net/grpc/search.go
@@ -26,9 +26,8 @@ import (
 )
 
 var (
-	// config   = com.Conf
-	config   com.Config
-	searcher = com.Searcher
+	// config = com.Conf
+	config com.Config
 )
 
 // InitEngine init engine
-- 
2.43.0


From fe125f0a99d31311836668880316e95f5532d89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:13 +0000
Subject: [PATCH 31/43] fix: the gRPC client sends the id, labels and force
 flag of a document

---
 net/grpc/grpcc.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/net/grpc/grpcc.go b/net/grpc/grpcc.go
index df27c13..d5707c7 100644
--- a/net/grpc/grpcc.go
+++ b/net/grpc/grpcc.go
@@ -16,6 +16,7 @@ package grpc
 
 import (
 	"log"
+	"strconv"
 	// "os"
 	// "time"
 
@@ -53,9 +54,12 @@ func InitGrpcc(address string, doc Doc) int32 {
 
 	// Contact the server and print out its response.
 	r, err := c.DocInx(context.Background(), &pb.DocReq{
-		Content: doc.Content,
-		Attri:   doc.Attri,
-		Tokens:  doc.Tokens,
+		DocId:       strconv.FormatUint(doc.DocId, 10),
+		Content:     doc.Content,
+		Attri:       doc.Attri,
+		Tokens:      doc.Tokens,
+		Labels:      doc.Labels,
+		ForceUpdate: doc.ForceUpdate,
 	})
 	if err != nil {
 		log.Fatalf("init docinx grpcc could not greet: %v", err)
-- 
2.43.0


From b129303bea7592424a61e7e0f952ecb8ea961d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:29 +0000
Subject: [PATCH 32/43] fix: documents added over HTTP and gRPC are stored, so
 that they survive a restart

---
 net/com/search.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/net/com/search.go b/net/com/search.go
index 2c5db09..3fe4f44 100644
--- a/net/com/search.go
+++ b/net/com/search.go
@@ -15,6 +15,7 @@
 package com
 
 import (
+	"encoding/gob"
 	"log"
 	"os"
 
@@ -30,6 +31,11 @@ var (
 	Conf Config
 )
 
+func init() {
+	// the attributes of the documents are stored by gob
+	gob.Register(types.Attri{})
+}
+
 // InitEngine init engine
 func InitEngine(conf Config) {
 	// os.RemoveAll("./riot-index")
-- 
2.43.0


From c578b3375c2c611ec9cf07036c37d4e7b7c59bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:57 +0000
Subject: [PATCH 33/43] fix: labels of a document added over gRPC are indexed

---
 net/grpc/grpc.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/net/grpc/grpc.go b/net/grpc/grpc.go
index 70aece1..6edfa81 100644
--- a/net/grpc/grpc.go
+++ b/net/grpc/grpc.go
@@ -66,7 +66,7 @@ func addDoc(in *pb.DocReq) {
 		Content: in.Content,
 		Attri:   attri,
 		Tokens:  tokens,
-		// Labels: in.Labels,
+		Labels:  in.Labels,
 		// Fields: in.Fields,
 	}
 
-- 
2.43.0


From b7186ac10d05179ca0639cbaf6a4d290b7a6cf40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:53 +0000
Subject: [PATCH 34/43] fix: distributed searches use the configured window
 from the first request on

---
 net/http/dist.go | 2 +-
 net/http/http.go | 8 +-------
 2 files changed, 2 insertions(+), 8 deletions(-)

diff --git a/net/http/dist.go b/net/http/dist.go
index 759cfc6..65ee95d 100644
--- a/net/http/dist.go
+++ b/net/http/dist.go
@@ -60,6 +60,7 @@ func WgDist(w http.ResponseWriter, req *http.Request) {
 	maxOutputs := req.URL.Query().Get("maxOutputs")
 	atime := req.URL.Query().Get("time")
 
+	config := com.Conf
 	maxOuts, _ := strconv.Atoi(maxOutputs)
 	if maxOuts == 0 {
 		maxOuts = config.Engine.MaxOutputs
@@ -74,7 +75,6 @@ func WgDist(w http.ResponseWriter, req *http.Request) {
 	param.Set("maxOutputs", maxOutputs)
 	param.Set("time", atime)
 
-	config = com.Conf
 	for i := 0; i < len(config.Url); i++ {
 		wg.Add(1)
 		url := config.Url[i] + "/search"
diff --git a/net/http/http.go b/net/http/http.go
index e192db5..3f35523 100644
--- a/net/http/http.go
+++ b/net/http/http.go
@@ -29,12 +29,6 @@ import (
 	"github.com/go-ego/riot/types"
 )
 
-var (
-	// config   = com.Conf
-	config   com.Config
-	searcher = com.Searcher
-)
-
 // Post http post, params is url.Values type
 func Post(apiUrl string, params url.Values) (rs []byte, err error) {
 	c := &http.Client{
@@ -81,7 +75,7 @@ func Search(w http.ResponseWriter, req *http.Request) {
 		atime = req.Form["time"][0]
 	}
 
-	config = com.Conf
+	config := com.Conf
 	log.Println("config: ", config, "; com.Conf: ", com.Conf)
 	if maxOutputs == 0 {
 		outputOffset = config.Engine.OutputOffset
-- 
2.43.0


From c3d9283cf93773f4b546bc04548beeb36c7d5324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:07 +0000
Subject: [PATCH 35/43] fix: a distributed search returns the requested number
 of documents, not one less

---
 net/grpc/search.go | 3 +--
 net/http/dist.go   | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/net/grpc/search.go b/net/grpc/search.go
index fd36a81..43982d2 100644
--- a/net/grpc/search.go
+++ b/net/grpc/search.go
@@ -161,8 +161,7 @@ func wgGrpc(sea com.SearchArgs) *pb.SearchReply {
 		sort.Sort(rpcSlice(docs))
 
 		if len(docs) > maxOutputs {
-			end := maxOutputs - 1
-			docs = docs[0:end]
+			docs = docs[0:maxOutputs]
 		}
 
 		timestamp := time.Now().Unix()
diff --git a/net/http/dist.go b/net/http/dist.go
index 65ee95d..4ced2f2 100644
--- a/net/http/dist.go
+++ b/net/http/dist.go
@@ -97,8 +97,7 @@ func WgDist(w http.ResponseWriter, req *http.Request) {
 		sort.Sort(docsSlice(docs))
 
 		if len(docs) > maxOuts {
-			end := maxOuts - 1
-			docs = docs[0:end]
+			docs = docs[0:maxOuts]
 		}
 
 		timestamp := time.Now().Unix()
-- 
2.43.0


From a0c914e39b3a866fd5c9aea65c2665c3ca0fe73c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:45 +0000
Subject: [PATCH 36/43] fix: the answer of a single node is merged like any
 other, a node without one is left out

---
 net/http/dist.go | 42 +++++++++++++++++++-----------------------
 1 file changed, 19 insertions(+), 23 deletions(-)

diff --git a/net/http/dist.go b/net/http/dist.go
index 4ced2f2..baa3e1d 100644
--- a/net/http/dist.go
+++ b/net/http/dist.go
@@ -52,7 +52,6 @@ func WgPost(url string, param url.Values) {
 // WgDist dist
 func WgDist(w http.ResponseWriter, req *http.Request) {
 	wgdata = nil
-	var distData []byte
 
 	userid := req.URL.Query().Get("userid")
 	query := req.URL.Query().Get("query")
@@ -83,32 +82,29 @@ func WgDist(w http.ResponseWriter, req *http.Request) {
 
 	wg.Wait()
 
-	if len(wgdata) == 1 {
-		distData = wgdata[0]
-	} else {
-		var docs []Text
-		for i := 0; i < len(wgdata); i++ {
-			var jsonRes JsonResponse
-			json.Unmarshal(wgdata[i], &jsonRes)
-			for d := 0; d < len(jsonRes.Docs); d++ {
-				docs = append(docs, jsonRes.Docs[d])
-			}
+	var docs []Text
+	for i := 0; i < len(wgdata); i++ {
+		var jsonRes JsonResponse
+		if err := json.Unmarshal(wgdata[i], &jsonRes); err != nil {
+			log.Println("the node did not answer in json: ", err)
+			continue
 		}
-		sort.Sort(docsSlice(docs))
-
-		if len(docs) > maxOuts {
-			docs = docs[0:maxOuts]
+		for d := 0; d < len(jsonRes.Docs); d++ {
+			docs = append(docs, jsonRes.Docs[d])
 		}
+	}
+	sort.Sort(docsSlice(docs))
 
-		timestamp := time.Now().Unix()
-		response, _ := json.Marshal(&JsonResponse{
-			Len:       len(docs),
-			Timestamp: timestamp,
-			Docs:      docs})
-
-		distData = response
+	if len(docs) > maxOuts {
+		docs = docs[0:maxOuts]
 	}
 
+	timestamp := time.Now().Unix()
+	response, _ := json.Marshal(&JsonResponse{
+		Len:       len(docs),
+		Timestamp: timestamp,
+		Docs:      docs})
+
 	w.Header().Set("Content-Type", "application/json;charset=utf-8")
-	io.WriteString(w, string(distData))
+	io.WriteString(w, string(response))
 }
-- 
2.43.0


From 7a5114a08aacf05b8a8efead8626fcb2ac858e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:00 +0000
Subject: [PATCH 37/43] fix: concurrent distributed searches no longer share
 their answers

---
 net/http/dist.go | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/net/http/dist.go b/net/http/dist.go
index baa3e1d..1eabbba 100644
--- a/net/http/dist.go
+++ b/net/http/dist.go
@@ -28,30 +28,32 @@ import (
 	"github.com/go-ego/riot/net/com"
 )
 
-var (
-	wgdata [][]byte
-	wg     sync.WaitGroup
-)
+// wgPosts collects the answers of the nodes to one distributed search
+type wgPosts struct {
+	sync.WaitGroup
+	mu   sync.Mutex
+	data [][]byte
+}
 
 // WgPost post
-func WgPost(url string, param url.Values) {
+func (wg *wgPosts) WgPost(url string, param url.Values) {
+	defer wg.Done()
 
 	data, err := Post(url, param)
 
 	if string(data) == "" || err != nil {
 		log.Println("data is null ...")
-		defer wg.Done()
 		return
 	}
 
-	wgdata = append(wgdata, data)
-
-	defer wg.Done()
+	wg.mu.Lock()
+	wg.data = append(wg.data, data)
+	wg.mu.Unlock()
 }
 
 // WgDist dist
 func WgDist(w http.ResponseWriter, req *http.Request) {
-	wgdata = nil
+	var wg wgPosts
 
 	userid := req.URL.Query().Get("userid")
 	query := req.URL.Query().Get("query")
@@ -77,10 +79,11 @@ func WgDist(w http.ResponseWriter, req *http.Request) {
 	for i := 0; i < len(config.Url); i++ {
 		wg.Add(1)
 		url := config.Url[i] + "/search"
-		go WgPost(url, param)
+		go wg.WgPost(url, param)
 	}
 
 	wg.Wait()
+	wgdata := wg.data
 
 	var docs []Text
 	for i := 0; i < len(wgdata); i++ {
-- 
2.43.0


From 79877265356d8be3d31c8dcdf0f4a358ac905771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:31 +0000
Subject: [PATCH 38/43] fix: an unreachable node does not end the process that
 searches it

---
 net/grpc/grpcc.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/net/grpc/grpcc.go b/net/grpc/grpcc.go
index d5707c7..01a533a 100644
--- a/net/grpc/grpcc.go
+++ b/net/grpc/grpcc.go
@@ -106,7 +106,7 @@ func InitSearchRpc(address string, sea com.SearchArgs) (*pb.SearchReply, error)
 	})
 
 	if err != nil {
-		log.Fatalf("init searchRpc could not greet: %v", err)
+		log.Printf("init searchRpc could not greet: %v", err)
 		zlog.Error("init searchRpc could not greet: ", err)
 		return nil, err
 	}
-- 
2.43.0


From 5a7abc5f4ac79297564d067a6bf73f47aa2a344d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:58 +0000
Subject: [PATCH 39/43] fix: concurrent distributed gRPC searches no longer
 share their answers

---
 net/grpc/search.go | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/net/grpc/search.go b/net/grpc/search.go
index 43982d2..78d3fb2 100644
--- a/net/grpc/search.go
+++ b/net/grpc/search.go
@@ -109,29 +109,32 @@ func rpcSearch(sea com.SearchArgs) *pb.SearchReply {
 	return rep
 }
 
-var (
-	rpcdata []*pb.SearchReply
-	rpcwg   sync.WaitGroup
-)
+// wgRpcs collects the answers of the nodes to one distributed search
+type wgRpcs struct {
+	sync.WaitGroup
+	mu   sync.Mutex
+	data []*pb.SearchReply
+}
 
 // WgRpc rpc
-func WgRpc(address string, sea com.SearchArgs) {
+func (wg *wgRpcs) WgRpc(address string, sea com.SearchArgs) {
+	defer wg.Done()
+
 	data, err := InitSearchRpc(address, sea)
 
 	if data == nil || err != nil {
 		log.Println("data is null...")
-		defer rpcwg.Done()
 		return
 	}
 
-	rpcdata = append(rpcdata, data)
-
-	defer rpcwg.Done()
+	wg.mu.Lock()
+	wg.data = append(wg.data, data)
+	wg.mu.Unlock()
 }
 
 func wgGrpc(sea com.SearchArgs) *pb.SearchReply {
-	rpcdata = nil
 	var (
+		rpcwg      wgRpcs
 		distData   *pb.SearchReply
 		maxOutputs = sea.MaxOutputs
 	)
@@ -144,10 +147,11 @@ func wgGrpc(sea com.SearchArgs) *pb.SearchReply {
 	for i := 0; i < len(config.Rpc.DistPort); i++ {
 		rpcwg.Add(1)
 		addr := config.Rpc.DistPort[i]
-		go WgRpc(addr, sea)
+		go rpcwg.WgRpc(addr, sea)
 	}
 
 	rpcwg.Wait()
+	rpcdata := rpcwg.data
 
 	if len(rpcdata) == 1 {
 		distData = rpcdata[0]
-- 
2.43.0


From 41d774bfa63e21e44f10ecd1e6a3630f2d3b2951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:04 +0000
Subject: [PATCH 40/43] fix: the health endpoint no longer races with the
 heartbeat

---
 net/heartb/heart.go | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/net/heartb/heart.go b/net/heartb/heart.go
index 5f18faf..3b09b13 100644
--- a/net/heartb/heart.go
+++ b/net/heartb/heart.go
@@ -23,6 +23,7 @@ import (
 	"net/http"
 	"os/exec"
 	"sync"
+	"sync/atomic"
 	"time"
 
 	"google.golang.org/grpc"
@@ -57,7 +58,7 @@ func Grpcc(addr, dir, bra string) {
 	for {
 		time.Sleep(1 * time.Second)
 		heart(c)
-		if rpc > 3 {
+		if atomic.LoadInt32(&rpc) > 3 {
 			wg.Add(1)
 			go func() {
 				defer wg.Done()
@@ -78,9 +79,9 @@ func heart(c pb.GreeterClient) {
 	})
 
 	if err != nil {
-		rpc++
-		if rpc > 3 {
-			log.Println("rpc...", rpc)
+		n := atomic.AddInt32(&rpc, 1)
+		if n > 3 {
+			log.Println("rpc...", n)
 		}
 
 		log.Printf("could not greet: %v", err)
@@ -91,16 +92,16 @@ func heart(c pb.GreeterClient) {
 	log.Printf("Greeting: %d", r.Result)
 
 	if r.Result != 1 {
-		rpc++
+		n := atomic.AddInt32(&rpc, 1)
 		log.Println("...", r.Result)
-		if rpc > 3 {
-			log.Println("rpc...", rpc)
+		if n > 3 {
+			log.Println("rpc...", n)
 		}
 	}
 }
 
 func restart(dir, bra string) error {
-	rpc = 0
+	atomic.StoreInt32(&rpc, 0)
 	cmd := exec.Command("/bin/sh", "-c", bra)
 	cmd.Dir = dir
 	// cmd.Run()
@@ -137,7 +138,7 @@ func Health(w http.ResponseWriter, req *http.Request) {
 	response, _ := json.Marshal(&Json{
 		Code:      0,
 		Timestamp: timestamp,
-		Health:    rpc})
+		Health:    atomic.LoadInt32(&rpc)})
 
 	w.Header().Set("Content-Type", "application/json;charset=utf-8")
 	io.WriteString(w, string(response))
-- 
2.43.0


From 9fb5db3eb594da679aabcaec3fdc52d01d493b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:25 +0000
Subject: [PATCH 41/43] fix: distributed gRPC searches with a logical clause
 but no expression no longer crash the server

---
 net/grpc/etcd.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/net/grpc/etcd.go b/net/grpc/etcd.go
index 8ca6d97..de71de5 100644
--- a/net/grpc/etcd.go
+++ b/net/grpc/etcd.go
@@ -100,10 +100,12 @@ func (s *eserver) Search(ctx context.Context, in *pb.SearchReq) (*pb.SearchReply
 
 	var logic types.Logic
 	if in.Logic != nil {
+		// the expr is optional
+		expr := in.Logic.GetExpr()
 		logicExp := types.Expr{
-			Must:   in.Logic.Expr.Must,
-			Should: in.Logic.Expr.Should,
-			NotIn:  in.Logic.Expr.NotIn,
+			Must:   expr.GetMust(),
+			Should: expr.GetShould(),
+			NotIn:  expr.GetNotIn(),
 		}
 
 		logic = types.Logic{
-- 
2.43.0


From 9d940f4a6472fa12578f4a0f7526163dfd01e9c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:21 +0000
Subject: [PATCH 42/43] fix: a search timeout too large for a duration no
 longer ends the search at once

---
 engine.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/engine.go b/engine.go
index 4081ef3..f2b183c 100755
--- a/engine.go
+++ b/engine.go
@@ -22,6 +22,7 @@ package riot
 import (
 	"fmt"
 	"log"
+	"math"
 	"os"
 	"runtime"
 	"sort"
@@ -613,8 +614,12 @@ func (engine *Engine) TimeOut(request types.SearchReq,
 	rankerReturnChan chan rankerReturnReq) (
 	rankOutArr interface{}, numDocs int, isTimeout bool) {
 
-	deadline := time.Now().Add(time.Nanosecond *
-		time.Duration(NumNanosecondsInAMillisecond*request.Timeout))
+	// 超时过大时避免溢出
+	wait := time.Duration(math.MaxInt64)
+	if int64(request.Timeout) <= math.MaxInt64/NumNanosecondsInAMillisecond {
+		wait = time.Duration(request.Timeout) * NumNanosecondsInAMillisecond
+	}
+	deadline := time.Now().Add(wait)
 
 	var (
 		rankOutID  types.ScoredIDs
-- 
2.43.0


From 7f8ac3d5717a5c9d7a2ee114b951c62bb64747ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:07 +0000
Subject: [PATCH 43/43] fix: a node that never answers holds a gRPC search for
 ever

---
 net/grpc/grpcc.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/net/grpc/grpcc.go b/net/grpc/grpcc.go
index 01a533a..03c0faf 100644
--- a/net/grpc/grpcc.go
+++ b/net/grpc/grpcc.go
@@ -18,7 +18,7 @@ import (
 	"log"
 	"strconv"
 	// "os"
-	// "time"
+	"time"
 
 	"golang.org/x/net/context"
 	"google.golang.org/grpc"
@@ -28,6 +28,9 @@ import (
 	zlog "github.com/go-vgo/zlog/zlog"
 )
 
+// searchTimeout is the longest time to wait for the answer of a node
+const searchTimeout = 5 * time.Second
+
 // Doc grpc response
 type Doc struct {
 	DocId   uint64
@@ -94,8 +97,12 @@ func InitSearchRpc(address string, sea com.SearchArgs) (*pb.SearchReply, error)
 		Expr:   logicExp,
 	}
 
+	// 节点不响应时不能一直等待
+	ctx, cancel := context.WithTimeout(context.Background(), searchTimeout)
+	defer cancel()
+
 	// Contact the server and print out its response.
-	r, err := c.Search(context.Background(), &pb.SearchReq{
+	r, err := c.Search(ctx, &pb.SearchReq{
 		Id:           sea.Id,
 		Query:        sea.Query,
 		OutputOffset: int32(sea.OutputOffset),
-- 
2.43.0

