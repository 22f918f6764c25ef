From 48bb1002259e0b8ed8c0bb4c004e0a4c8ab792a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:04 +0000
Subject: [PATCH 01/35] fix: geo distance of antipodal points must not be NaN
 when rounding pushes the haversine past 1

---
 pkg/hnsw/distancer/geo_spatial.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/hnsw/distancer/geo_spatial.go b/pkg/hnsw/distancer/geo_spatial.go
index f29a0f0..d152935 100644
--- a/pkg/hnsw/distancer/geo_spatial.go
+++ b/pkg/hnsw/distancer/geo_spatial.go
@@ -34,6 +34,8 @@ func geoDist(a, b []float32) (float32, bool, error) {
 
 	A := math.Sin(deltaLatRadian/2)*math.Sin(deltaLatRadian/2) +
 		math.Cos(latARadian)*math.Cos(latBRadian)*math.Sin(deltaLonRadian/2)*math.Sin(deltaLonRadian/2)
+	// rounding can push A slightly past 1 for antipodal points, which would make the result NaN
+	A = math.Min(A, 1)
 
 	C := 2 * math.Atan2(math.Sqrt(A), math.Sqrt(1-A))
 
-- 
2.43.0


From 52af73c20161f5860dea6c2988b0a512af888c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:06 +0000
Subject: [PATCH 02/35] fix: distance-bounded search returns one distance per
 id and keeps matches whose distance rounds below zero

---
 pkg/hnsw/search_with_max_dist.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pkg/hnsw/search_with_max_dist.go b/pkg/hnsw/search_with_max_dist.go
index 6cf2ab7..55eaa3f 100644
--- a/pkg/hnsw/search_with_max_dist.go
+++ b/pkg/hnsw/search_with_max_dist.go
@@ -71,9 +71,6 @@ func (h *hnsw) KnnSearchByVectorMaxDist(searchVec []float32, dist float32,
 	dists := make([]float32, len(all))
 	i = 0
 	for _, elem := range all {
-		if elem.Dist < 0 {
-			continue
-		}
 		if elem.Dist > dist {
 			break
 		}
@@ -83,5 +80,5 @@ func (h *hnsw) KnnSearchByVectorMaxDist(searchVec []float32, dist float32,
 	}
 
 	h.pools.pqResults.Put(res)
-	return out[:i], dists, nil
+	return out[:i], dists[:i], nil
 }
-- 
2.43.0


From adca43ebad35d52fe9f740240a23990ad681a102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:12 +0000
Subject: [PATCH 03/35] fix: keep the entrypoints marked as visited when the
 visited list has to grow

---
 pkg/hnsw/search.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/hnsw/search.go b/pkg/hnsw/search.go
index 1b39198..a8c6619 100644
--- a/pkg/hnsw/search.go
+++ b/pkg/hnsw/search.go
@@ -180,7 +180,7 @@ func (h *hnsw) searchLayerByVector(queryVector []float32,
 	}
 
 	h.insertViableEntrypointsAsCandidatesAndResults(entrypoints, candidates,
-		results, level, visited, allowList)
+		results, level, &visited, allowList)
 
 	var worstResultDistance float32
 	var err error
@@ -326,7 +326,7 @@ func (h *hnsw) searchLayerByVector(queryVector []float32,
 
 func (h *hnsw) insertViableEntrypointsAsCandidatesAndResults(
 	entrypoints, candidates, results *priorityqueue.Queue, level int,
-	visitedList visited.ListSet, allowList helpers.AllowList,
+	visitedList *visited.ListSet, allowList helpers.AllowList,
 ) {
 	for entrypoints.Len() > 0 {
 		ep := entrypoints.Pop()
-- 
2.43.0


From 9885ca3658d623b78c012edc054034d2e8895db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:06 +0000
Subject: [PATCH 04/35] fix: vector cache holds ids beyond its initial size

Ids from 25000 on paniced; grow could also shrink the cache again when two
callers raced, counted empty slots as vectors, and preload wrote under a
read lock.
---
 pkg/hnsw/vector_cache.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/pkg/hnsw/vector_cache.go b/pkg/hnsw/vector_cache.go
index 1f6e7b1..d71ddd3 100644
--- a/pkg/hnsw/vector_cache.go
+++ b/pkg/hnsw/vector_cache.go
@@ -73,6 +73,7 @@ func (s *shardedLockCache) all() [][]float32 {
 }
 
 func (s *shardedLockCache) get(ctx context.Context, id uint64) ([]float32, error) {
+	s.grow(id)
 	s.shardedLocks[id%shardFactor].RLock()
 	vec := s.cache[id]
 	s.shardedLocks[id%shardFactor].RUnlock()
@@ -124,6 +125,7 @@ func (s *shardedLockCache) multiGet(ctx context.Context, ids []uint64) ([][]floa
 	errs := make([]error, len(ids))
 
 	for i, id := range ids {
+		s.grow(id)
 		s.shardedLocks[id%shardFactor].RLock()
 		vec := s.cache[id]
 		s.shardedLocks[id%shardFactor].RUnlock()
@@ -151,13 +153,17 @@ func (s *shardedLockCache) prefetch(id uint64) {
 	s.shardedLocks[id%shardFactor].RLock()
 	defer s.shardedLocks[id%shardFactor].RUnlock()
 
+	if id >= uint64(len(s.cache)) {
+		return
+	}
 	prefetchFunc(uintptr(unsafe.Pointer(&s.cache[id])))
 }
 
 //nolint:unused
 func (s *shardedLockCache) preload(id uint64, vec []float32) {
-	s.shardedLocks[id%shardFactor].RLock()
-	defer s.shardedLocks[id%shardFactor].RUnlock()
+	s.grow(id)
+	s.shardedLocks[id%shardFactor].Lock()
+	defer s.shardedLocks[id%shardFactor].Unlock()
 
 	atomic.AddInt64(&s.count, 1)
 	s.trackDimensionsOnce.Do(func() {
@@ -169,7 +175,10 @@ func (s *shardedLockCache) preload(id uint64, vec []float32) {
 
 //nolint:unused
 func (s *shardedLockCache) grow(node uint64) {
-	if node < uint64(len(s.cache)) {
+	s.shardedLocks[node%shardFactor].RLock()
+	fits := node < uint64(len(s.cache))
+	s.shardedLocks[node%shardFactor].RUnlock()
+	if fits {
 		return
 	}
 	s.maintenanceLock.Lock()
@@ -178,10 +187,13 @@ func (s *shardedLockCache) grow(node uint64) {
 	s.obtainAllLocks()
 	defer s.releaseAllLocks()
 
+	if node < uint64(len(s.cache)) {
+		// somebody else has grown the cache in the meantime
+		return
+	}
 	newSize := node + minimumIndexGrowthDelta
 	newCache := make([][]float32, newSize)
 	copy(newCache, s.cache)
-	atomic.StoreInt64(&s.count, int64(newSize))
 	s.cache = newCache
 }
 
-- 
2.43.0


From 9d2641ff8afc3bfc6b03d42df7e666ad5667be91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:29 +0000
Subject: [PATCH 05/35] fix: fall back to the vector stored with the node when
 the vector source does not have it

The document client only provides the vectors of the last 1000 documents
added by this process. Without them, connecting a new node failed and its
document was dropped.
---
 pkg/hnsw/index.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/pkg/hnsw/index.go b/pkg/hnsw/index.go
index 814e4f9..16b8799 100644
--- a/pkg/hnsw/index.go
+++ b/pkg/hnsw/index.go
@@ -229,12 +229,27 @@ func New(cfg Config, uc UserConfig, kvStore *collection.KeyValue) (*hnsw, error)
 		normalizeOnRead = true
 	}
 
-	vectorCache := newShardedLockCache(cfg.VectorForIDThunk, uc.VectorCacheMaxObjects,
+	var index *hnsw
+	// the vector of every indexed node is stored with the node, so a vector the
+	// thunk cannot provide (anymore) is not lost
+	vectorForID := func(ctx context.Context, id uint64) ([]float32, error) {
+		vec, err := cfg.VectorForIDThunk(ctx, id)
+		var notFound storobj.ErrNotFound
+		if err == nil || errors.As(err, &notFound) {
+			return vec, err
+		}
+		if node := index.nodeByID(id); node != nil && len(node.Vector) > 0 {
+			return node.Vector, nil
+		}
+		return nil, err
+	}
+
+	vectorCache := newShardedLockCache(vectorForID, uc.VectorCacheMaxObjects,
 		cfg.Logger, normalizeOnRead, defaultDeletionInterval)
 
 	compressedVectorsCache := newCompressedShardedLockCache(uc.VectorCacheMaxObjects, cfg.Logger)
 	resetCtx, resetCtxCancel := context.WithCancel(context.Background())
-	index := &hnsw{
+	index = &hnsw{
 		maximumConnections: uc.MaxConnections,
 
 		// inspired by original paper and other implementations
-- 
2.43.0


From 932c65a38c64d5be3f02e3044b55c2ac732f3fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:33 +0000
Subject: [PATCH 06/35] fix: release the locks when tombstone cleanup stops
 with an error

---
 pkg/hnsw/delete.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/hnsw/delete.go b/pkg/hnsw/delete.go
index 4d13c75..ec1b500 100644
--- a/pkg/hnsw/delete.go
+++ b/pkg/hnsw/delete.go
@@ -245,15 +245,18 @@ func (h *hnsw) replaceDeletedEntrypoint(deleteList helpers.AllowList, breakClean
 				node, ok = val.(*vertex)
 				if !ok {
 					// Now vertexValue is a pointer to the cached vertex object
+					h.RUnlock()
 					return false, fmt.Errorf("failed to get vertex")
 				}
 			} else {
 				_, value, err = h.nodes.KVGet(h.className, fmt.Sprintf("%d", id))
 				if err != nil {
+					h.RUnlock()
 					return false, err
 				}
 				err = json.Unmarshal(value, &node)
 				if err != nil {
+					h.RUnlock()
 					return false, err
 				}
 			}
@@ -609,6 +612,7 @@ func (h *hnsw) removeTombstonesAndNodes(deleteList helpers.AllowList, breakClean
 		if !breakCleanUpTombstonedNodes() {
 			_, err = h.nodes.KVDelete(h.className, fmt.Sprintf("%d", id))
 			if err != nil {
+				h.resetLock.Unlock()
 				return false, err
 			}
 			if h.compressed.Load() {
-- 
2.43.0


From 9fa976328c02a41f6edf020cd81d9435b2a60ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:21 +0000
Subject: [PATCH 07/35] fix: a cleaned-up node is removed for good before its
 tombstone is dropped

The vertex stayed in the node cache, a node that was never flushed stopped the
cleanup after its tombstone was gone, and an interrupted cleanup dropped
tombstones of nodes it kept: in all three cases the deleted id was found by
searches again. Reassigned nodes are marked for the next flush.
---
 pkg/hnsw/delete.go               | 21 ++++++++++++++-------
 pkg/hnsw/neighbor_connections.go |  3 +++
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/pkg/hnsw/delete.go b/pkg/hnsw/delete.go
index ec1b500..247bc9b 100644
--- a/pkg/hnsw/delete.go
+++ b/pkg/hnsw/delete.go
@@ -18,6 +18,7 @@ import (
 	"sync"
 	"time"
 
+	"github.com/fairdatasociety/fairOS-dfs/pkg/collection"
 	"github.com/pkg/errors"
 	"github.com/weaviate/weaviate/adapters/repos/db/helpers"
 	"github.com/weaviate/weaviate/entities/cyclemanager"
@@ -603,15 +604,15 @@ func (h *hnsw) addTombstone(ids ...uint64) error {
 func (h *hnsw) removeTombstonesAndNodes(deleteList helpers.AllowList, breakCleanUpTombstonedNodes breakCleanUpTombstonedNodesFunc) (ok bool, err error) {
 	it := deleteList.Iterator()
 	for id, ok := it.Next(); ok; id, ok = it.Next() {
-		h.metrics.RemoveTombstone()
-		h.tombstoneLock.Lock()
-		delete(h.tombstones, id)
-		h.tombstoneLock.Unlock()
-
 		h.resetLock.Lock()
-		if !breakCleanUpTombstonedNodes() {
+		if breakCleanUpTombstonedNodes() {
+			h.resetLock.Unlock()
+			return false, nil
+		} else {
+			h.indexCache.Remove(id)
 			_, err = h.nodes.KVDelete(h.className, fmt.Sprintf("%d", id))
-			if err != nil {
+			// a node which was never flushed is not in the store
+			if err != nil && !errors.Is(err, collection.ErrEntryNotFound) {
 				h.resetLock.Unlock()
 				return false, err
 			}
@@ -627,6 +628,12 @@ func (h *hnsw) removeTombstonesAndNodes(deleteList helpers.AllowList, breakClean
 		}
 		h.resetLock.Unlock()
 
+		// only now that the node is gone it is safe to forget about the tombstone
+		h.metrics.RemoveTombstone()
+		h.tombstoneLock.Lock()
+		delete(h.tombstones, id)
+		h.tombstoneLock.Unlock()
+
 		if err := h.commitLog.RemoveTombstone(id); err != nil {
 			return false, err
 		}
diff --git a/pkg/hnsw/neighbor_connections.go b/pkg/hnsw/neighbor_connections.go
index b83bd2f..4181703 100644
--- a/pkg/hnsw/neighbor_connections.go
+++ b/pkg/hnsw/neighbor_connections.go
@@ -65,6 +65,9 @@ func (n *neighborFinderConnector) Do() error {
 		}
 	}
 
+	n.node.Lock()
+	n.node.Committed = false
+	n.node.Unlock()
 	n.graph.indexCache.Add(n.node.Id, n.node)
 
 	return nil
-- 
2.43.0


From c3ff776bce428981faf1c68d342f4a3f31a0770c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:59 +0000
Subject: [PATCH 08/35] fix: nodes evicted from the node cache before the next
 flush are stored, not lost

---
 pkg/hnsw/index.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/pkg/hnsw/index.go b/pkg/hnsw/index.go
index 16b8799..1d66e10 100644
--- a/pkg/hnsw/index.go
+++ b/pkg/hnsw/index.go
@@ -214,7 +214,23 @@ func New(cfg Config, uc UserConfig, kvStore *collection.KeyValue) (*hnsw, error)
 	if err := cfg.Validate(); err != nil {
 		return nil, errors.Wrap(err, "invalid config")
 	}
-	indexCache, err := lru.New(10000)
+	var index *hnsw
+	indexCache, err := lru.NewWithEvict(10000, func(_, value interface{}) {
+		// a node that has not been flushed yet only lives in the cache, it must
+		// not get lost when it has to make room
+		node, ok := value.(*vertex)
+		if !ok || node.Committed || index.hasTombstone(node.Id) {
+			return
+		}
+		nodeBytes, err := json.Marshal(node)
+		if err == nil {
+			err = kvStore.KVPut(cfg.ClassName, fmt.Sprintf("%d", node.Id), nodeBytes)
+		}
+		if err != nil {
+			cfg.Logger.WithField("action", "hnsw_evict_node").
+				WithError(err).Errorf("could not store node %d", node.Id)
+		}
+	})
 	if err != nil {
 		return nil, err
 	}
@@ -229,7 +245,6 @@ func New(cfg Config, uc UserConfig, kvStore *collection.KeyValue) (*hnsw, error)
 		normalizeOnRead = true
 	}
 
-	var index *hnsw
 	// the vector of every indexed node is stored with the node, so a vector the
 	// thunk cannot provide (anymore) is not lost
 	vectorForID := func(ctx context.Context, id uint64) ([]float32, error) {
-- 
2.43.0


From 0b0f0cf91e02fe65c7146d5fae94a4c98ea4ea79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:02 +0000
Subject: [PATCH 09/35] fix: a failing vectorizer response is an error, not a
 missing vector

---
 pkg/vectorizer/rest/vectorizer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/vectorizer/rest/vectorizer.go b/pkg/vectorizer/rest/vectorizer.go
index 6613e36..af83d24 100644
--- a/pkg/vectorizer/rest/vectorizer.go
+++ b/pkg/vectorizer/rest/vectorizer.go
@@ -57,7 +57,7 @@ func (v *Vectorizer) Corpi(text []string) (*vctrzr.Vector, error) {
 	defer resp.Body.Close()
 
 	if resp.StatusCode != http.StatusOK {
-		return nil, err
+		return nil, ErrServiceUnavailable
 	}
 
 	var result map[string][]float32
-- 
2.43.0


From 0fca7ed1c237f491212307ee9218af90919466fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:05 +0000
Subject: [PATCH 10/35] fix: adding and searching documents without login or
 open pod is an error, not a panic

---
 pkg/document/document.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/pkg/document/document.go b/pkg/document/document.go
index 0733c82..ccae4e2 100644
--- a/pkg/document/document.go
+++ b/pkg/document/document.go
@@ -285,6 +285,12 @@ func (c *Client) GetCollections() ([]*Collection, error) {
 }
 
 func (c *Client) AddDocuments(collection string, propertiesToIndex []string, documents ...*Document) error {
+	if c.sessionId == "" {
+		return dfs.ErrUserNotLoggedIn
+	}
+	if c.podInfo == nil {
+		return dfs.ErrPodNotOpen
+	}
 	namespacedCollection := namespace + collection
 
 	// check if kv and doc table is open or not
@@ -454,6 +460,12 @@ func (c *Client) AddDocuments(collection string, propertiesToIndex []string, doc
 }
 
 func (c *Client) GetNearDocuments(collection, text string, distance float32, limit int) ([][]byte, []float32, error) {
+	if c.sessionId == "" {
+		return nil, nil, dfs.ErrUserNotLoggedIn
+	}
+	if c.podInfo == nil {
+		return nil, nil, dfs.ErrPodNotOpen
+	}
 	namespacedCollection := namespace + collection
 	kvStore := c.podInfo.GetKVStore()
 	_, err := kvStore.KVCount(namespacedCollection)
@@ -555,6 +567,12 @@ func (c *Client) GetNearDocuments(collection, text string, distance float32, lim
 }
 
 func (c *Client) GetNearDocumentsByVector(collection string, vector []float32, distance float32, limit int) ([][]byte, []float32, error) {
+	if c.sessionId == "" {
+		return nil, nil, dfs.ErrUserNotLoggedIn
+	}
+	if c.podInfo == nil {
+		return nil, nil, dfs.ErrPodNotOpen
+	}
 	namespacedCollection := namespace + collection
 
 	kvStore := c.podInfo.GetKVStore()
-- 
2.43.0


From d1a1204708adf53aab16313e6ee9edee5b6daf31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:25 +0000
Subject: [PATCH 11/35] fix: load the vector index of a collection whose
 document database was opened by a plain lookup

---
 pkg/document/document.go | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/pkg/document/document.go b/pkg/document/document.go
index ccae4e2..0dc6c59 100644
--- a/pkg/document/document.go
+++ b/pkg/document/document.go
@@ -29,6 +29,8 @@ const (
 	namespace     = "fave_"
 )
 
+var errDocumentDBAlreadyOpened = collection.ErrDocumentDBAlreadyOpened
+
 // Config for fairOS-dfs
 type Config struct {
 	Verbose       bool
@@ -284,6 +286,14 @@ func (c *Client) GetCollections() ([]*Collection, error) {
 	return collections, nil
 }
 
+// hasIndex tells if the vector index of the collection is loaded. The document
+// database alone may have been opened without it
+func (c *Client) hasIndex(namespacedCollection string) bool {
+	c.hnswLock.RLock()
+	defer c.hnswLock.RUnlock()
+	return c.indices[namespacedCollection] != nil
+}
+
 func (c *Client) AddDocuments(collection string, propertiesToIndex []string, documents ...*Document) error {
 	if c.sessionId == "" {
 		return dfs.ErrUserNotLoggedIn
@@ -306,7 +316,7 @@ func (c *Client) AddDocuments(collection string, propertiesToIndex []string, doc
 	if err != nil {
 		return err
 	}
-	if !docIsOpen {
+	if !docIsOpen || !c.hasIndex(namespacedCollection) {
 		vectorForID := func(ctx context.Context, id uint64) ([]float32, error) {
 			if v, ok := c.documentCache.Get(fmt.Sprintf("%s/%s/%d", c.pod, namespacedCollection, id)); ok {
 				return v.([]float32), nil
@@ -334,7 +344,7 @@ func (c *Client) AddDocuments(collection string, propertiesToIndex []string, doc
 		c.indices[namespacedCollection] = index
 		c.hnswLock.Unlock()
 		err = c.api.DocOpen(c.sessionId, c.pod, namespacedCollection)
-		if err != nil {
+		if err != nil && !errors.Is(err, errDocumentDBAlreadyOpened) {
 			return err
 		}
 	}
@@ -479,7 +489,7 @@ func (c *Client) GetNearDocuments(collection, text string, distance float32, lim
 	if err != nil {
 		return nil, nil, err
 	}
-	if !docIsOpen {
+	if !docIsOpen || !c.hasIndex(namespacedCollection) {
 		vectorForID := func(ctx context.Context, id uint64) ([]float32, error) {
 			if v, ok := c.documentCache.Get(fmt.Sprintf("%s/%s/%d", c.pod, namespacedCollection, id)); ok {
 				return v.([]float32), nil
@@ -507,7 +517,7 @@ func (c *Client) GetNearDocuments(collection, text string, distance float32, lim
 		c.indices[namespacedCollection] = index
 		c.hnswLock.Unlock()
 		err = c.api.DocOpen(c.sessionId, c.pod, namespacedCollection)
-		if err != nil {
+		if err != nil && !errors.Is(err, errDocumentDBAlreadyOpened) {
 			return nil, nil, err
 		}
 	}
@@ -587,7 +597,7 @@ func (c *Client) GetNearDocumentsByVector(collection string, vector []float32, d
 	if err != nil {
 		return nil, nil, err
 	}
-	if !docIsOpen {
+	if !docIsOpen || !c.hasIndex(namespacedCollection) {
 		vectorForID := func(ctx context.Context, id uint64) ([]float32, error) {
 			if v, ok := c.documentCache.Get(fmt.Sprintf("%s/%s/%d", c.pod, namespacedCollection, id)); ok {
 				return v.([]float32), nil
@@ -615,7 +625,7 @@ func (c *Client) GetNearDocumentsByVector(collection string, vector []float32, d
 		c.indices[namespacedCollection] = index
 		c.hnswLock.Unlock()
 		err = c.api.DocOpen(c.sessionId, c.pod, namespacedCollection)
-		if err != nil {
+		if err != nil && !errors.Is(err, errDocumentDBAlreadyOpened) {
 			return nil, nil, err
 		}
 	}
-- 
2.43.0


From 9dff2782f1ca6549240ea3e210bf7466dfe74f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:28 +0000
Subject: [PATCH 12/35] fix: text search without a limit finds more than one
 document

---
 pkg/document/document.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/document/document.go b/pkg/document/document.go
index 0dc6c59..2919231 100644
--- a/pkg/document/document.go
+++ b/pkg/document/document.go
@@ -535,7 +535,12 @@ func (c *Client) GetNearDocuments(collection, text string, distance float32, lim
 	if err != nil {
 		return nil, nil, err
 	}
-	ids, dists, err := index.KnnSearchByVectorMaxDist(vector.ToArray(), distance, limit, nil)
+	ef := limit
+	if ef == 0 {
+		// no limit requested
+		ef = 800
+	}
+	ids, dists, err := index.KnnSearchByVectorMaxDist(vector.ToArray(), distance, ef, nil)
 	if err != nil {
 		return nil, nil, err
 	}
-- 
2.43.0


From 727566eb6d0946a318c49b7d7444a92b3aa44004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:32 +0000
Subject: [PATCH 13/35] fix: keep the ids of the documents stored before a
 failing one

---
 pkg/document/document.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/pkg/document/document.go b/pkg/document/document.go
index 2919231..e776e93 100644
--- a/pkg/document/document.go
+++ b/pkg/document/document.go
@@ -358,6 +358,20 @@ func (c *Client) AddDocuments(collection string, propertiesToIndex []string, doc
 	}
 
 	indexId := count
+	finished := false
+	defer func() {
+		if finished || indexId == count {
+			return
+		}
+		// the documents before the failing one are stored, their ids must not be
+		// handed out again
+		if err := index.Flush(indexId); err != nil {
+			c.logger.Errorf("flush failed :%s\n", err.Error())
+		}
+		if err := c.api.CommitPodFeeds(c.pod, c.sessionId); err != nil {
+			c.logger.Errorf("commit pod feeds failed :%s\n", err.Error())
+		}
+	}()
 	for _, doc := range documents {
 		doc.Properties["id"] = doc.ID
 
@@ -458,6 +472,7 @@ func (c *Client) AddDocuments(collection string, propertiesToIndex []string, doc
 		}
 		fmt.Println("added document", indexId)
 	}
+	finished = true
 	err = index.Flush(indexId)
 	if err != nil {
 		return err
-- 
2.43.0


From d00cbb531513a69cc83462f7e20c991a2f91de23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:57 +0000
Subject: [PATCH 14/35] fix: malformed documents and indexes in a request are
 refused instead of crashing the handler

---
 adapters/handlers/collections.go | 3 +++
 adapters/handlers/documents.go   | 5 ++++-
 pkg/document/document.go         | 6 +++++-
 3 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/adapters/handlers/collections.go b/adapters/handlers/collections.go
index 6281488..6ce4802 100644
--- a/adapters/handlers/collections.go
+++ b/adapters/handlers/collections.go
@@ -18,6 +18,9 @@ func (s *Handler) FaveCreateCollectionHandler(request operations.FaveCreateColle
 	}
 	indexes := make(map[string]collection.IndexType)
 	for _, v := range collectionRaw.Indexes {
+		if v == nil {
+			return operations.NewFaveCreateCollectionBadRequest().WithPayload(createErrorResponseObject("Wrong index type"))
+		}
 		switch v.FieldType {
 		case "string":
 			indexes[v.FieldName] = collection.StringIndex
diff --git a/adapters/handlers/documents.go b/adapters/handlers/documents.go
index 0b43155..ecdff03 100644
--- a/adapters/handlers/documents.go
+++ b/adapters/handlers/documents.go
@@ -24,9 +24,12 @@ func (s *Handler) FaveAddDocumentsHandler(request operations.FaveAddDocumentsPar
 	documents := make([]*document.Document, len(documentsRaw.Documents))
 
 	for i, v := range documentsRaw.Documents {
+		if v == nil {
+			return operations.NewFaveAddDocumentsBadRequest().WithPayload(createErrorResponseObject("Document cannot be blank"))
+		}
 		props, ok := v.Properties.(map[string]interface{})
 		if !ok {
-			continue
+			return operations.NewFaveAddDocumentsBadRequest().WithPayload(createErrorResponseObject("Document properties should be an object"))
 		}
 		d := &document.Document{
 			ID:         string(v.ID),
diff --git a/pkg/document/document.go b/pkg/document/document.go
index e776e93..cc29748 100644
--- a/pkg/document/document.go
+++ b/pkg/document/document.go
@@ -431,7 +431,11 @@ func (c *Client) AddDocuments(collection string, propertiesToIndex []string, doc
 			for _, property := range propertiesToIndex {
 				dt, ok := doc.Properties[property]
 				if ok {
-					vectorData += dt.(string) + " "
+					text, ok := dt.(string)
+					if !ok {
+						return fmt.Errorf("property %s is not a string", property)
+					}
+					vectorData += text + " "
 				}
 			}
 
-- 
2.43.0


From 555d4f41ef82e4d0cea0a767b0d7e18524020bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:17 +0000
Subject: [PATCH 15/35] fix: a failure to read the document count must not
 restart the ids at zero

---
 pkg/document/document.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pkg/document/document.go b/pkg/document/document.go
index cc29748..d7fe59d 100644
--- a/pkg/document/document.go
+++ b/pkg/document/document.go
@@ -29,7 +29,10 @@ const (
 	namespace     = "fave_"
 )
 
-var errDocumentDBAlreadyOpened = collection.ErrDocumentDBAlreadyOpened
+var (
+	errDocumentDBAlreadyOpened = collection.ErrDocumentDBAlreadyOpened
+	errEntryNotFound           = collection.ErrEntryNotFound
+)
 
 // Config for fairOS-dfs
 type Config struct {
@@ -354,6 +357,10 @@ func (c *Client) AddDocuments(collection string, propertiesToIndex []string, doc
 	c.hnswLock.Unlock()
 	count, err := index.GetDocCount()
 	if err != nil {
+		if !errors.Is(err, errEntryNotFound) {
+			// starting over would hand out ids which are in use
+			return err
+		}
 		count = 0
 	}
 
-- 
2.43.0


From f2bd1bfb3be5b4e9a9b537095dc495033d73e962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:24 +0000
Subject: [PATCH 16/35] fix: loading the entrypoint restores its layer and does
 not write under a read lock

---
 pkg/hnsw/insert.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pkg/hnsw/insert.go b/pkg/hnsw/insert.go
index d817847..5ebca2e 100644
--- a/pkg/hnsw/insert.go
+++ b/pkg/hnsw/insert.go
@@ -179,8 +179,8 @@ func (h *hnsw) GetDocCount() (uint64, error) {
 }
 
 func (h *hnsw) LoadEntrypoint() error {
-	h.RLock()
-	defer h.RUnlock()
+	h.Lock()
+	defer h.Unlock()
 
 	_, v, err := h.nodes.KVGet(h.className, entrypointKey)
 	if err != nil {
@@ -195,6 +195,10 @@ func (h *hnsw) LoadEntrypoint() error {
 	}
 
 	h.entryPointID = ep.ID
+	// the entrypoint is always a node on the highest layer
+	if node := h.nodeByID(ep.ID); node != nil {
+		h.currentMaximumLayer = node.Level
+	}
 	return nil
 }
 
-- 
2.43.0


From 09ef4e104dcbcb6b0914823b1de501c00a7299c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:43 +0000
Subject: [PATCH 17/35] fix: concurrent additions must not hand out the same
 ids

---
 pkg/document/document.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/document/document.go b/pkg/document/document.go
index d7fe59d..d0b7683 100644
--- a/pkg/document/document.go
+++ b/pkg/document/document.go
@@ -42,6 +42,7 @@ type Config struct {
 
 type Client struct {
 	lock          sync.Mutex
+	addLock       sync.Mutex
 	hnswLock      sync.RWMutex
 	api           *dfs.API
 	indices       map[string]h.VectorIndex
@@ -352,6 +353,10 @@ func (c *Client) AddDocuments(collection string, propertiesToIndex []string, doc
 		}
 	}
 
+	// the ids of one batch must be taken before the next batch can count
+	c.addLock.Lock()
+	defer c.addLock.Unlock()
+
 	c.hnswLock.Lock()
 	index := c.indices[namespacedCollection]
 	c.hnswLock.Unlock()
-- 
2.43.0


From 14e9ee60d88a91ec1a9a68d7cd68eb0fdb71abdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:32 +0000
Subject: [PATCH 18/35] fix: a flat search for zero results must not panic

---
 pkg/hnsw/flat_search.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/hnsw/flat_search.go b/pkg/hnsw/flat_search.go
index 141b7ce..d71e097 100644
--- a/pkg/hnsw/flat_search.go
+++ b/pkg/hnsw/flat_search.go
@@ -51,7 +51,7 @@ func (h *hnsw) flatSearch(queryVector []float32, limit int,
 
 		if results.Len() < limit {
 			results.Insert(candidate, dist)
-		} else if results.Top().Dist > dist {
+		} else if results.Len() > 0 && results.Top().Dist > dist {
 			results.Pop()
 			results.Insert(candidate, dist)
 		}
-- 
2.43.0


From a7b230c5b9fe3dc4f50212e9d9b54379ec755e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:10 +0000
Subject: [PATCH 19/35] fix: concurrent lookups no longer lose nodes that leave
 the node cache

---
 pkg/hnsw/delete.go               |  2 ++
 pkg/hnsw/index.go                | 16 ++++++++++++++++
 pkg/hnsw/insert.go               |  6 ++++--
 pkg/hnsw/neighbor_connections.go |  6 +++---
 4 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/pkg/hnsw/delete.go b/pkg/hnsw/delete.go
index 247bc9b..bb163de 100644
--- a/pkg/hnsw/delete.go
+++ b/pkg/hnsw/delete.go
@@ -609,8 +609,10 @@ func (h *hnsw) removeTombstonesAndNodes(deleteList helpers.AllowList, breakClean
 			h.resetLock.Unlock()
 			return false, nil
 		} else {
+			h.nodesLock.Lock()
 			h.indexCache.Remove(id)
 			_, err = h.nodes.KVDelete(h.className, fmt.Sprintf("%d", id))
+			h.nodesLock.Unlock()
 			// a node which was never flushed is not in the store
 			if err != nil && !errors.Is(err, collection.ErrEntryNotFound) {
 				h.resetLock.Unlock()
diff --git a/pkg/hnsw/index.go b/pkg/hnsw/index.go
index 1d66e10..09ebb10 100644
--- a/pkg/hnsw/index.go
+++ b/pkg/hnsw/index.go
@@ -157,6 +157,9 @@ type hnsw struct {
 	shardName              string
 
 	indexCache *lru.Cache
+	// the node store does not support concurrent updates and a node on its way
+	// out of the cache must have reached the store before it is looked up there
+	nodesLock sync.Mutex
 }
 
 type CommitLogger interface {
@@ -637,6 +640,12 @@ func (h *hnsw) nodeByID(id uint64) *vertex {
 			return nil
 		}
 	} else {
+		h.nodesLock.Lock()
+		defer h.nodesLock.Unlock()
+		if val, ok = h.indexCache.Get(id); ok {
+			v, _ = val.(*vertex)
+			return v
+		}
 		_, value, err = h.nodes.KVGet(h.className, fmt.Sprintf("%d", id))
 		if err != nil {
 			fmt.Println("nodeByID: could not get node", id, h.className, err)
@@ -652,6 +661,13 @@ func (h *hnsw) nodeByID(id uint64) *vertex {
 	}
 }
 
+// cacheNode makes the node the one that is found under its id
+func (h *hnsw) cacheNode(node *vertex) {
+	h.nodesLock.Lock()
+	defer h.nodesLock.Unlock()
+	h.indexCache.Add(node.Id, node)
+}
+
 func (h *hnsw) Drop(ctx context.Context) error {
 	// cancel tombstone cleanup goroutine
 
diff --git a/pkg/hnsw/insert.go b/pkg/hnsw/insert.go
index 5ebca2e..229fa30 100644
--- a/pkg/hnsw/insert.go
+++ b/pkg/hnsw/insert.go
@@ -101,7 +101,7 @@ func (h *hnsw) insertInitialElement(node *vertex, nodeVec []float32) error {
 		return errors.Wrapf(err, "grow HNSW index to accommodate node %d", node.Id)
 	}
 
-	h.indexCache.Add(node.Id, node)
+	h.cacheNode(node)
 
 	if h.compressed.Load() {
 		compressed := h.pq.Encode(nodeVec)
@@ -116,6 +116,8 @@ func (h *hnsw) insertInitialElement(node *vertex, nodeVec []float32) error {
 }
 
 func (h *hnsw) Flush(docCount uint64) error {
+	h.nodesLock.Lock()
+	defer h.nodesLock.Unlock()
 	keys := h.indexCache.Keys()
 	for _, key := range keys {
 		iNode, ok := h.indexCache.Get(key)
@@ -272,7 +274,7 @@ func (h *hnsw) insert(node *vertex, nodeVec []float32) error {
 		h.cache.preload(node.Id, nodeVec)
 	}
 
-	h.indexCache.Add(node.Id, node)
+	h.cacheNode(node)
 
 	h.insertMetrics.prepareAndInsertNode(before)
 	before = time.Now()
diff --git a/pkg/hnsw/neighbor_connections.go b/pkg/hnsw/neighbor_connections.go
index 4181703..bf93081 100644
--- a/pkg/hnsw/neighbor_connections.go
+++ b/pkg/hnsw/neighbor_connections.go
@@ -68,7 +68,7 @@ func (n *neighborFinderConnector) Do() error {
 	n.node.Lock()
 	n.node.Committed = false
 	n.node.Unlock()
-	n.graph.indexCache.Add(n.node.Id, n.node)
+	n.graph.cacheNode(n.node)
 
 	return nil
 }
@@ -160,7 +160,7 @@ func (n *neighborFinderConnector) connectNeighborAtLevel(neighborID uint64,
 		// we can simply append
 		// updatedConnections = append(currentConnections, n.node.ID)
 		neighbor.appendConnectionAtLevelNoLock(level, n.node.Id, maximumConnections)
-		n.graph.indexCache.Add(neighbor.Id, neighbor)
+		n.graph.cacheNode(neighbor)
 
 		if err := n.graph.commitLog.AddLinkAtLevel(neighbor.Id, level, n.node.Id); err != nil {
 			return err
@@ -209,7 +209,7 @@ func (n *neighborFinderConnector) connectNeighborAtLevel(neighborID uint64,
 		for candidates.Len() > 0 {
 			id := candidates.Pop().ID
 			neighbor.appendConnectionAtLevelNoLock(level, id, maximumConnections)
-			n.graph.indexCache.Add(neighbor.Id, neighbor)
+			n.graph.cacheNode(neighbor)
 
 			if err := n.graph.commitLog.AddLinkAtLevel(neighbor.Id, level, id); err != nil {
 				return err
-- 
2.43.0


From ba69029806af85f3992aa6eece41c3fe73c27519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:10 +0000
Subject: [PATCH 20/35] fix: cleanup removes every stored version of a deleted
 node

---
 pkg/hnsw/delete.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pkg/hnsw/delete.go b/pkg/hnsw/delete.go
index bb163de..ffea7e4 100644
--- a/pkg/hnsw/delete.go
+++ b/pkg/hnsw/delete.go
@@ -611,10 +611,13 @@ func (h *hnsw) removeTombstonesAndNodes(deleteList helpers.AllowList, breakClean
 		} else {
 			h.nodesLock.Lock()
 			h.indexCache.Remove(id)
-			_, err = h.nodes.KVDelete(h.className, fmt.Sprintf("%d", id))
+			// the store may hold several versions of a node, an older one must not
+			// show up again. A node which was never flushed is not in the store
+			for err = nil; err == nil; {
+				_, err = h.nodes.KVDelete(h.className, fmt.Sprintf("%d", id))
+			}
 			h.nodesLock.Unlock()
-			// a node which was never flushed is not in the store
-			if err != nil && !errors.Is(err, collection.ErrEntryNotFound) {
+			if !errors.Is(err, collection.ErrEntryNotFound) {
 				h.resetLock.Unlock()
 				return false, err
 			}
-- 
2.43.0


From 7a05d4fffb33416592edc1015cff20c4cf0142d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:08 +0000
Subject: [PATCH 21/35] fix: numbers beyond the int64 range in the user config
 are clamped, not wrapped

---
 pkg/hnsw/user_config.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/hnsw/user_config.go b/pkg/hnsw/user_config.go
index 8fd42a5..5920bad 100644
--- a/pkg/hnsw/user_config.go
+++ b/pkg/hnsw/user_config.go
@@ -228,7 +228,11 @@ func optionalIntFromMap(in map[string]interface{}, name string,
 	case json.Number:
 		asInt64, err = typed.Int64()
 	case float64:
-		asInt64 = int64(typed)
+		if typed >= math.MaxInt64 {
+			asInt64 = math.MaxInt64
+		} else {
+			asInt64 = int64(typed)
+		}
 	}
 	if err != nil {
 		// try to recover from error
-- 
2.43.0


From fabd23af47bd0da4a86f32dbf4cf8ca91e5e39a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:20 +0000
Subject: [PATCH 22/35] fix: a negative search limit means no limit instead of
 a crash

---
 pkg/document/document.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/document/document.go b/pkg/document/document.go
index d0b7683..39ec493 100644
--- a/pkg/document/document.go
+++ b/pkg/document/document.go
@@ -567,7 +567,7 @@ func (c *Client) GetNearDocuments(collection, text string, distance float32, lim
 		return nil, nil, err
 	}
 	ef := limit
-	if ef == 0 {
+	if ef <= 0 {
 		// no limit requested
 		ef = 800
 	}
@@ -575,7 +575,7 @@ func (c *Client) GetNearDocuments(collection, text string, distance float32, lim
 	if err != nil {
 		return nil, nil, err
 	}
-	if limit != 0 && len(ids) > limit {
+	if limit > 0 && len(ids) > limit {
 		ids = ids[:limit]
 		dists = dists[:limit]
 	}
@@ -677,7 +677,7 @@ func (c *Client) GetNearDocumentsByVector(collection string, vector []float32, d
 	if err != nil {
 		return nil, nil, err
 	}
-	if limit != 0 && len(ids) > limit {
+	if limit > 0 && len(ids) > limit {
 		ids = ids[:limit]
 		dists = dists[:limit]
 	}
-- 
2.43.0


From d1d5f8c2bd2ba65e06429e59a5663598fab1fff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:21 +0000
Subject: [PATCH 23/35] fix: a vectorizer reply without a vector is an error

---
 pkg/vectorizer/rest/vectorizer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/vectorizer/rest/vectorizer.go b/pkg/vectorizer/rest/vectorizer.go
index af83d24..bad9a90 100644
--- a/pkg/vectorizer/rest/vectorizer.go
+++ b/pkg/vectorizer/rest/vectorizer.go
@@ -64,6 +64,9 @@ func (v *Vectorizer) Corpi(text []string) (*vctrzr.Vector, error) {
 	if err := json.NewDecoder(resp.Body).Decode(&result); err != nil {
 		return nil, err
 	}
+	if len(result["vector"]) == 0 {
+		return nil, errors.New("no vector in the reply")
+	}
 
 	vector := vctrzr.NewVector(result["vector"])
 	return &vector, nil
-- 
2.43.0


From 3184b171713784a7ee6b2f861989d04846cedc2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:29 +0000
Subject: [PATCH 24/35] fix: documents that could not be added are reported
 instead of dropped silently

---
 pkg/document/document.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pkg/document/document.go b/pkg/document/document.go
index 39ec493..7ed2262 100644
--- a/pkg/document/document.go
+++ b/pkg/document/document.go
@@ -384,6 +384,7 @@ func (c *Client) AddDocuments(collection string, propertiesToIndex []string, doc
 			c.logger.Errorf("commit pod feeds failed :%s\n", err.Error())
 		}
 	}()
+	var failed error
 	for _, doc := range documents {
 		doc.Properties["id"] = doc.ID
 
@@ -418,6 +419,7 @@ func (c *Client) AddDocuments(collection string, propertiesToIndex []string, doc
 				err = index.Add(indexId, vector)
 				if err != nil {
 					c.logger.Errorf("index.Add failed :%s\n", err.Error())
+					failed = err
 					continue
 				}
 				c.documentCache.Add(fmt.Sprintf("%s/%s/%d", c.pod, namespacedCollection, indexId), vector)
@@ -428,6 +430,7 @@ func (c *Client) AddDocuments(collection string, propertiesToIndex []string, doc
 				err = index.Add(indexId, slice)
 				if err != nil {
 					c.logger.Errorf("index.Add failed :%s\n", err.Error())
+					failed = err
 					continue
 				}
 				c.documentCache.Add(fmt.Sprintf("%s/%s/%d", c.pod, namespacedCollection, indexId), slice)
@@ -458,6 +461,7 @@ func (c *Client) AddDocuments(collection string, propertiesToIndex []string, doc
 				vector, err := c.lookup.Corpi([]string{vectorData})
 				if err != nil {
 					c.logger.Errorf("corpi failed :%s\n", err.Error())
+					failed = err
 					continue
 				}
 
@@ -465,6 +469,7 @@ func (c *Client) AddDocuments(collection string, propertiesToIndex []string, doc
 				err = index.Add(indexId, vector.ToArray())
 				if err != nil {
 					c.logger.Errorf("index.Add failed :%s\n", err.Error())
+					failed = err
 					continue
 				}
 				c.documentCache.Add(fmt.Sprintf("%s/%s/%d", c.pod, namespacedCollection, indexId), vector.ToArray())
@@ -478,6 +483,7 @@ func (c *Client) AddDocuments(collection string, propertiesToIndex []string, doc
 		data, err := json.Marshal(doc.Properties)
 		if err != nil {
 			c.logger.Errorf("marshal document failed :%s\n", err.Error())
+			failed = err
 			continue
 		}
 
@@ -497,7 +503,8 @@ func (c *Client) AddDocuments(collection string, propertiesToIndex []string, doc
 	if err != nil {
 		return err
 	}
-	return nil
+	// the other documents are added, but these are not
+	return failed
 }
 
 func (c *Client) GetNearDocuments(collection, text string, distance float32, limit int) ([][]byte, []float32, error) {
-- 
2.43.0


From 44684188a7322b68c1da7680f84c4b6f7a2b1687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:06 +0000
Subject: [PATCH 25/35] fix: ids are not handed out again after a failed flush

---
 pkg/document/document.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/pkg/document/document.go b/pkg/document/document.go
index 7ed2262..bd32c9d 100644
--- a/pkg/document/document.go
+++ b/pkg/document/document.go
@@ -46,6 +46,7 @@ type Client struct {
 	hnswLock      sync.RWMutex
 	api           *dfs.API
 	indices       map[string]h.VectorIndex
+	nextIds       map[string]uint64 // guarded by addLock
 	pod           string
 	logger        logging.Logger
 	sessionId     string
@@ -76,6 +77,7 @@ func New(config Config, api *dfs.API) (*Client, error) {
 		api:     api,
 		logger:  logger,
 		indices: map[string]h.VectorIndex{},
+		nextIds: map[string]uint64{},
 	}
 	// TODO support multiple languages
 	//if config.GlovePodRef != "" {
@@ -224,6 +226,9 @@ func (c *Client) DeleteCollection(collection string) error {
 	}
 
 	namespacedCollection := namespace + collection
+	// no documents may be added meanwhile
+	c.addLock.Lock()
+	defer c.addLock.Unlock()
 
 	wg := sync.WaitGroup{}
 	wg.Add(2)
@@ -245,6 +250,7 @@ func (c *Client) DeleteCollection(collection string) error {
 		}
 	}()
 	wg.Wait()
+	delete(c.nextIds, namespacedCollection)
 	c.hnswLock.Lock()
 	delete(c.indices, namespacedCollection)
 	c.hnswLock.Unlock()
@@ -368,17 +374,24 @@ func (c *Client) AddDocuments(collection string, propertiesToIndex []string, doc
 		}
 		count = 0
 	}
+	if next := c.nextIds[namespacedCollection]; next > count {
+		// the last count could not be stored
+		count = next
+	}
 
 	indexId := count
 	finished := false
 	defer func() {
+		c.nextIds[namespacedCollection] = indexId
 		if finished || indexId == count {
 			return
 		}
 		// the documents before the failing one are stored, their ids must not be
 		// handed out again
 		if err := index.Flush(indexId); err != nil {
+			// without the count the documents must not become visible after a restart
 			c.logger.Errorf("flush failed :%s\n", err.Error())
+			return
 		}
 		if err := c.api.CommitPodFeeds(c.pod, c.sessionId); err != nil {
 			c.logger.Errorf("commit pod feeds failed :%s\n", err.Error())
-- 
2.43.0


From 073e8d8a6351dff5a9a443d4876735a7356be3b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:51 +0000
Subject: [PATCH 26/35] fix: a search never pairs a vector with the document of
 another one

---
 pkg/document/document.go | 34 ++++++++++++++++++++++++++++++----
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/pkg/document/document.go b/pkg/document/document.go
index bd32c9d..5a452af 100644
--- a/pkg/document/document.go
+++ b/pkg/document/document.go
@@ -613,8 +613,9 @@ func (c *Client) GetNearDocuments(collection, text string, distance float32, lim
 				errCh <- err
 				return
 			}
-			if len(docs) == 0 {
-				errCh <- fmt.Errorf("document not found %d", id)
+			// the document of a vector may be missing if storing it failed, the lookup
+			// then yields the one with the next larger number
+			if len(docs) == 0 || !hasIndexId(docs[0], id) {
 				return
 			}
 			documents[i] = docs[0]
@@ -629,6 +630,7 @@ func (c *Client) GetNearDocuments(collection, text string, distance float32, lim
 		return nil, nil, err
 	}
 
+	documents, dists = onlyFound(documents, dists)
 	return documents, dists, nil
 }
 
@@ -715,8 +717,9 @@ func (c *Client) GetNearDocumentsByVector(collection string, vector []float32, d
 				errCh <- err
 				return
 			}
-			if len(docs) == 0 {
-				errCh <- fmt.Errorf("document not found %d", id)
+			// the document of a vector may be missing if storing it failed, the lookup
+			// then yields the one with the next larger number
+			if len(docs) == 0 || !hasIndexId(docs[0], id) {
 				return
 			}
 			documents[i] = docs[0]
@@ -731,9 +734,32 @@ func (c *Client) GetNearDocumentsByVector(collection string, vector []float32, d
 		return nil, nil, err
 	}
 
+	documents, dists = onlyFound(documents, dists)
 	return documents, dists, nil
 }
 
+// hasIndexId tells if the document was stored with the given index id
+func hasIndexId(document []byte, id uint64) bool {
+	stored := struct {
+		HnswId *uint64 `json:"hnswId"`
+	}{}
+	err := json.Unmarshal(document, &stored)
+	return err == nil && stored.HnswId != nil && *stored.HnswId == id
+}
+
+// onlyFound leaves out the positions without a document
+func onlyFound(documents [][]byte, dists []float32) ([][]byte, []float32) {
+	n := 0
+	for i, document := range documents {
+		if document == nil {
+			continue
+		}
+		documents[n], dists[n] = document, dists[i]
+		n++
+	}
+	return documents[:n], dists[:n]
+}
+
 func (c *Client) GetDocument(collection, property, value string) ([]byte, error) {
 	namespacedCollection := namespace + collection
 	docIsOpen, err := c.api.IsDBOpened(c.sessionId, c.pod, namespacedCollection)
-- 
2.43.0


From cf75e3d2ca557ce0eb213641d5097f98b23089fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:35 +0000
Subject: [PATCH 27/35] fix: documents are not lost or missed when they are
 added and searched at the same time

---
 pkg/document/document.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/pkg/document/document.go b/pkg/document/document.go
index 5a452af..70ec6d6 100644
--- a/pkg/document/document.go
+++ b/pkg/document/document.go
@@ -42,7 +42,7 @@ type Config struct {
 
 type Client struct {
 	lock          sync.Mutex
-	addLock       sync.Mutex
+	addLock       sync.RWMutex // the stores cannot be read while they are written
 	hnswLock      sync.RWMutex
 	api           *dfs.API
 	indices       map[string]h.VectorIndex
@@ -313,6 +313,10 @@ func (c *Client) AddDocuments(collection string, propertiesToIndex []string, doc
 	}
 	namespacedCollection := namespace + collection
 
+	// the ids of one batch must be taken before the next batch can count
+	c.addLock.Lock()
+	defer c.addLock.Unlock()
+
 	// check if kv and doc table is open or not
 	kvStore := c.podInfo.GetKVStore()
 	_, err := kvStore.KVCount(namespacedCollection)
@@ -359,10 +363,6 @@ func (c *Client) AddDocuments(collection string, propertiesToIndex []string, doc
 		}
 	}
 
-	// the ids of one batch must be taken before the next batch can count
-	c.addLock.Lock()
-	defer c.addLock.Unlock()
-
 	c.hnswLock.Lock()
 	index := c.indices[namespacedCollection]
 	c.hnswLock.Unlock()
@@ -528,6 +528,8 @@ func (c *Client) GetNearDocuments(collection, text string, distance float32, lim
 		return nil, nil, dfs.ErrPodNotOpen
 	}
 	namespacedCollection := namespace + collection
+	c.addLock.RLock()
+	defer c.addLock.RUnlock()
 	kvStore := c.podInfo.GetKVStore()
 	_, err := kvStore.KVCount(namespacedCollection)
 	if err != nil {
@@ -642,6 +644,8 @@ func (c *Client) GetNearDocumentsByVector(collection string, vector []float32, d
 		return nil, nil, dfs.ErrPodNotOpen
 	}
 	namespacedCollection := namespace + collection
+	c.addLock.RLock()
+	defer c.addLock.RUnlock()
 
 	kvStore := c.podInfo.GetKVStore()
 	_, err := kvStore.KVCount(namespacedCollection)
@@ -762,6 +766,8 @@ func onlyFound(documents [][]byte, dists []float32) ([][]byte, []float32) {
 
 func (c *Client) GetDocument(collection, property, value string) ([]byte, error) {
 	namespacedCollection := namespace + collection
+	c.addLock.RLock()
+	defer c.addLock.RUnlock()
 	docIsOpen, err := c.api.IsDBOpened(c.sessionId, c.pod, namespacedCollection)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 38212bc2c6e36620aadb5821bd5be81a5c1e623a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:00 +0000
Subject: [PATCH 28/35] fix: a reopened index continues from its stored
 entrypoint when documents are added

---
 pkg/document/document.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/document/document.go b/pkg/document/document.go
index 70ec6d6..ffcdb9e 100644
--- a/pkg/document/document.go
+++ b/pkg/document/document.go
@@ -366,6 +366,11 @@ func (c *Client) AddDocuments(collection string, propertiesToIndex []string, doc
 	c.hnswLock.Lock()
 	index := c.indices[namespacedCollection]
 	c.hnswLock.Unlock()
+	// a reopened index must continue from its stored entrypoint
+	err = index.LoadEntrypoint()
+	if err != nil {
+		return err
+	}
 	count, err := index.GetDocCount()
 	if err != nil {
 		if !errors.Is(err, errEntryNotFound) {
-- 
2.43.0


From 85559cdeb54aed5046adfd2baff7399edf2609a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:32 +0000
Subject: [PATCH 29/35] fix: a failure to read the entrypoint is an error
 instead of a search from node 0

---
 pkg/hnsw/insert.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pkg/hnsw/insert.go b/pkg/hnsw/insert.go
index 229fa30..7e2ec22 100644
--- a/pkg/hnsw/insert.go
+++ b/pkg/hnsw/insert.go
@@ -18,6 +18,7 @@ import (
 	"math"
 	"time"
 
+	"github.com/fairdatasociety/fairOS-dfs/pkg/collection"
 	"github.com/pkg/errors"
 	"github.com/weaviate/weaviate/adapters/repos/db/helpers"
 	"github.com/weaviate/weaviate/adapters/repos/db/vector/hnsw/distancer"
@@ -186,14 +187,17 @@ func (h *hnsw) LoadEntrypoint() error {
 
 	_, v, err := h.nodes.KVGet(h.className, entrypointKey)
 	if err != nil {
+		if !errors.Is(err, collection.ErrEntryNotFound) {
+			// another entrypoint would hide the nodes it cannot reach
+			return errors.Wrap(err, "load entrypoint")
+		}
 		h.entryPointID = 0
 		return nil
 	}
 	ep := &entrypoint{}
 	err = json.Unmarshal(v, ep)
 	if err != nil {
-		h.entryPointID = 0
-		return nil
+		return errors.Wrap(err, "load entrypoint")
 	}
 
 	h.entryPointID = ep.ID
-- 
2.43.0


From 976195dad3828592409d8d70493d6c33f35973b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:32 +0000
Subject: [PATCH 30/35] fix: searching a collection without vectors finds
 nothing instead of failing

---
 pkg/document/document.go | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/pkg/document/document.go b/pkg/document/document.go
index ffcdb9e..c59c78a 100644
--- a/pkg/document/document.go
+++ b/pkg/document/document.go
@@ -589,6 +589,13 @@ func (c *Client) GetNearDocuments(collection, text string, distance float32, lim
 	c.hnswLock.Lock()
 	index := c.indices[namespacedCollection]
 	c.hnswLock.Unlock()
+	empty, err := isEmpty(index)
+	if err != nil {
+		return nil, nil, err
+	}
+	if empty {
+		return [][]byte{}, []float32{}, nil
+	}
 	err = index.LoadEntrypoint()
 	if err != nil {
 		return nil, nil, err
@@ -700,6 +707,13 @@ func (c *Client) GetNearDocumentsByVector(collection string, vector []float32, d
 	c.hnswLock.Lock()
 	index := c.indices[namespacedCollection]
 	c.hnswLock.Unlock()
+	empty, err := isEmpty(index)
+	if err != nil {
+		return nil, nil, err
+	}
+	if empty {
+		return [][]byte{}, []float32{}, nil
+	}
 	err = index.LoadEntrypoint()
 	if err != nil {
 		return nil, nil, err
@@ -747,6 +761,15 @@ func (c *Client) GetNearDocumentsByVector(collection string, vector []float32, d
 	return documents, dists, nil
 }
 
+// isEmpty tells if no vector has been stored in the index yet
+func isEmpty(index h.VectorIndex) (bool, error) {
+	count, err := index.GetDocCount()
+	if err != nil && !errors.Is(err, errEntryNotFound) {
+		return false, err
+	}
+	return err != nil || count == 0, nil
+}
+
 // hasIndexId tells if the document was stored with the given index id
 func hasIndexId(document []byte, id uint64) bool {
 	stored := struct {
-- 
2.43.0


From 2e65cc01b41bbab04ae5361e21f237f4a41946c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:50 +0000
Subject: [PATCH 31/35] fix: the collections of one pod or user are not mixed
 up with those of another

---
 pkg/document/document.go | 47 +++++++++++++++++++++++++++++-----------
 1 file changed, 34 insertions(+), 13 deletions(-)

diff --git a/pkg/document/document.go b/pkg/document/document.go
index c59c78a..88407d8 100644
--- a/pkg/document/document.go
+++ b/pkg/document/document.go
@@ -112,27 +112,50 @@ func (c *Client) Login(username, password string) error {
 	if err != nil {
 		return err
 	}
+	c.addLock.Lock()
+	defer c.addLock.Unlock()
 	c.sessionId = ui.UserInfo.GetSessionId()
+	// the pod opened before may belong to another user
+	c.leavePod()
 	return nil
 }
 
+// leavePod forgets what is kept in memory of the collections of the open pod, the
+// collections of another one may have the same names
+func (c *Client) leavePod() {
+	c.pod = ""
+	c.podInfo = nil
+	c.nextIds = map[string]uint64{}
+	c.hnswLock.Lock()
+	c.indices = map[string]h.VectorIndex{}
+	c.hnswLock.Unlock()
+	if c.documentCache != nil {
+		c.documentCache.Purge()
+	}
+}
+
 func (c *Client) OpenPod(pod string) error {
 	c.lock.Lock()
 	defer c.lock.Unlock()
-	c.pod = pod
 	if c.sessionId == "" {
 		return dfs.ErrUserNotLoggedIn
 	}
-	if !c.api.IsPodExist(c.pod, c.sessionId) {
-		_, err := c.api.CreatePod(c.pod, c.sessionId)
+	if !c.api.IsPodExist(pod, c.sessionId) {
+		_, err := c.api.CreatePod(pod, c.sessionId)
 		if err != nil {
 			return err
 		}
 	}
-	pi, err := c.api.OpenPod(c.pod, c.sessionId)
+	pi, err := c.api.OpenPod(pod, c.sessionId)
 	if err != nil {
 		return err
 	}
+	c.addLock.Lock()
+	defer c.addLock.Unlock()
+	if c.podInfo == nil || c.pod != pod {
+		c.leavePod()
+	}
+	c.pod = pod
 	c.podInfo = pi
 
 	//docs, _ := c.api.DocList(c.sessionId, c.pod)
@@ -305,6 +328,9 @@ func (c *Client) hasIndex(namespacedCollection string) bool {
 }
 
 func (c *Client) AddDocuments(collection string, propertiesToIndex []string, documents ...*Document) error {
+	// the ids of one batch must be taken before the next batch can count
+	c.addLock.Lock()
+	defer c.addLock.Unlock()
 	if c.sessionId == "" {
 		return dfs.ErrUserNotLoggedIn
 	}
@@ -313,10 +339,6 @@ func (c *Client) AddDocuments(collection string, propertiesToIndex []string, doc
 	}
 	namespacedCollection := namespace + collection
 
-	// the ids of one batch must be taken before the next batch can count
-	c.addLock.Lock()
-	defer c.addLock.Unlock()
-
 	// check if kv and doc table is open or not
 	kvStore := c.podInfo.GetKVStore()
 	_, err := kvStore.KVCount(namespacedCollection)
@@ -526,6 +548,8 @@ func (c *Client) AddDocuments(collection string, propertiesToIndex []string, doc
 }
 
 func (c *Client) GetNearDocuments(collection, text string, distance float32, limit int) ([][]byte, []float32, error) {
+	c.addLock.RLock()
+	defer c.addLock.RUnlock()
 	if c.sessionId == "" {
 		return nil, nil, dfs.ErrUserNotLoggedIn
 	}
@@ -533,8 +557,6 @@ func (c *Client) GetNearDocuments(collection, text string, distance float32, lim
 		return nil, nil, dfs.ErrPodNotOpen
 	}
 	namespacedCollection := namespace + collection
-	c.addLock.RLock()
-	defer c.addLock.RUnlock()
 	kvStore := c.podInfo.GetKVStore()
 	_, err := kvStore.KVCount(namespacedCollection)
 	if err != nil {
@@ -649,6 +671,8 @@ func (c *Client) GetNearDocuments(collection, text string, distance float32, lim
 }
 
 func (c *Client) GetNearDocumentsByVector(collection string, vector []float32, distance float32, limit int) ([][]byte, []float32, error) {
+	c.addLock.RLock()
+	defer c.addLock.RUnlock()
 	if c.sessionId == "" {
 		return nil, nil, dfs.ErrUserNotLoggedIn
 	}
@@ -656,9 +680,6 @@ func (c *Client) GetNearDocumentsByVector(collection string, vector []float32, d
 		return nil, nil, dfs.ErrPodNotOpen
 	}
 	namespacedCollection := namespace + collection
-	c.addLock.RLock()
-	defer c.addLock.RUnlock()
-
 	kvStore := c.podInfo.GetKVStore()
 	_, err := kvStore.KVCount(namespacedCollection)
 	if err != nil {
-- 
2.43.0


From 8688a3b08ffb58c121591de6a9fe53a9cf7583db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:54 +0000
Subject: [PATCH 32/35] fix: pods and collections that were created or deleted
 stay so after a restart

---
 pkg/document/document.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pkg/document/document.go b/pkg/document/document.go
index 88407d8..a727e35 100644
--- a/pkg/document/document.go
+++ b/pkg/document/document.go
@@ -140,16 +140,25 @@ func (c *Client) OpenPod(pod string) error {
 	if c.sessionId == "" {
 		return dfs.ErrUserNotLoggedIn
 	}
+	created := false
 	if !c.api.IsPodExist(pod, c.sessionId) {
 		_, err := c.api.CreatePod(pod, c.sessionId)
 		if err != nil {
 			return err
 		}
+		created = true
 	}
 	pi, err := c.api.OpenPod(pod, c.sessionId)
 	if err != nil {
 		return err
 	}
+	if created {
+		// a pod that is only known to this process cannot be opened after a restart
+		err = c.api.CommitPodFeeds(pod, c.sessionId)
+		if err != nil {
+			return err
+		}
+	}
 	c.addLock.Lock()
 	defer c.addLock.Unlock()
 	if c.podInfo == nil || c.pod != pod {
@@ -235,7 +244,7 @@ func (c *Client) CreateCollection(col *Collection) error {
 	c.hnswLock.Lock()
 	c.indices[namespacedCollection] = index
 	c.hnswLock.Unlock()
-	return nil
+	return c.api.CommitPodFeeds(c.pod, c.sessionId)
 }
 
 func (c *Client) DeleteCollection(collection string) error {
@@ -277,7 +286,7 @@ func (c *Client) DeleteCollection(collection string) error {
 	c.hnswLock.Lock()
 	delete(c.indices, namespacedCollection)
 	c.hnswLock.Unlock()
-	return nil
+	return c.api.CommitPodFeeds(c.pod, c.sessionId)
 }
 
 func (c *Client) GetCollections() ([]*Collection, error) {
-- 
2.43.0


From 2c2d05dc45bd8a9a0d360b8e5c4a6d4720ac9ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:17 +0000
Subject: [PATCH 33/35] fix: a collection that could not be deleted is not
 reported as deleted

---
 pkg/document/document.go | 34 ++++++++++++++--------------------
 1 file changed, 14 insertions(+), 20 deletions(-)

diff --git a/pkg/document/document.go b/pkg/document/document.go
index a727e35..4aca3ef 100644
--- a/pkg/document/document.go
+++ b/pkg/document/document.go
@@ -31,6 +31,8 @@ const (
 
 var (
 	errDocumentDBAlreadyOpened = collection.ErrDocumentDBAlreadyOpened
+	errDocumentDBNotPresent    = collection.ErrDocumentDBNotPresent
+	errKVTableNotPresent       = collection.ErrKVTableNotPresent
 	errEntryNotFound           = collection.ErrEntryNotFound
 )
 
@@ -262,26 +264,18 @@ func (c *Client) DeleteCollection(collection string) error {
 	c.addLock.Lock()
 	defer c.addLock.Unlock()
 
-	wg := sync.WaitGroup{}
-	wg.Add(2)
-	go func() {
-		defer wg.Done()
-		err := c.api.DocDelete(c.sessionId, c.pod, namespacedCollection)
-		if err != nil {
-			c.logger.Errorf("delete collection failed :%s\n", err.Error())
-		}
-	}()
-
-	go func() {
-		defer wg.Done()
-		kvStore := c.podInfo.GetKVStore()
-
-		err := kvStore.DeleteKVTable(namespacedCollection, c.podInfo.GetPodPassword())
-		if err != nil {
-			c.logger.Errorf("delete kv table failed :%s\n", err.Error())
-		}
-	}()
-	wg.Wait()
+	// the ids of the documents are counted in the kv table, it must not go first
+	err := c.api.DocDelete(c.sessionId, c.pod, namespacedCollection)
+	if err != nil && !errors.Is(err, errDocumentDBNotPresent) {
+		c.logger.Errorf("delete collection failed :%s\n", err.Error())
+		return err
+	}
+	kvStore := c.podInfo.GetKVStore()
+	err = kvStore.DeleteKVTable(namespacedCollection, c.podInfo.GetPodPassword())
+	if err != nil && !errors.Is(err, errKVTableNotPresent) {
+		c.logger.Errorf("delete kv table failed :%s\n", err.Error())
+		return err
+	}
 	delete(c.nextIds, namespacedCollection)
 	c.hnswLock.Lock()
 	delete(c.indices, namespacedCollection)
-- 
2.43.0


From 02be9a613e13cba31ae49b2d6f3216e8bcf53b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:58 +0000
Subject: [PATCH 34/35] fix: cleanup and the search for a new entrypoint look
 at all nodes, also after earlier deletions

---
 pkg/hnsw/delete.go | 46 ++++++++++++++++++++++++++++++++--------------
 1 file changed, 32 insertions(+), 14 deletions(-)

diff --git a/pkg/hnsw/delete.go b/pkg/hnsw/delete.go
index ffea7e4..5670371 100644
--- a/pkg/hnsw/delete.go
+++ b/pkg/hnsw/delete.go
@@ -274,13 +274,11 @@ func (h *hnsw) replaceDeletedEntrypoint(deleteList helpers.AllowList, breakClean
 
 func (h *hnsw) reassignNeighborsOf(deleteList helpers.AllowList, breakCleanUpTombstonedNodes breakCleanUpTombstonedNodesFunc) (ok bool, err error) {
 	h.RLock()
-	kvCount, err := h.nodes.KVCount(h.className)
+	size, err := h.idBound()
+	h.RUnlock()
 	if err != nil {
-		h.RUnlock()
 		return false, err
 	}
-	size := kvCount.Count
-	h.RUnlock()
 
 	for n := 0; n < int(size); n++ {
 		if ok, err := h.reassignNeighbor(uint64(n), deleteList, breakCleanUpTombstonedNodes); err != nil {
@@ -443,6 +441,31 @@ func (h *hnsw) deleteEntrypoint(node *vertex, denyList helpers.AllowList) error
 	return nil
 }
 
+// idBound returns a number above the ids of all nodes, cached and stored. Once
+// nodes have been deleted the number of stored nodes is not
+func (h *hnsw) idBound() (uint64, error) {
+	kvCount, err := h.nodes.KVCount(h.className)
+	if err != nil {
+		return 0, err
+	}
+	bound := kvCount.Count
+
+	docCount, err := h.GetDocCount()
+	if err != nil && !errors.Is(err, collection.ErrEntryNotFound) {
+		return 0, err
+	}
+	if docCount > bound {
+		bound = docCount
+	}
+
+	for _, key := range h.indexCache.Keys() {
+		if id := key.(uint64); id >= bound {
+			bound = id + 1
+		}
+	}
+	return bound, nil
+}
+
 // returns entryPointID, Level and whether a change occurred
 func (h *hnsw) findNewGlobalEntrypoint(denyList helpers.AllowList, targetLevel int,
 	oldEntrypoint uint64,
@@ -460,13 +483,12 @@ func (h *hnsw) findNewGlobalEntrypoint(denyList helpers.AllowList, targetLevel i
 		// better candidate
 
 		h.RLock()
-		kvCount, err := h.nodes.KVCount(h.className)
+		bound, err := h.idBound()
+		h.RUnlock()
 		if err != nil {
-			h.RUnlock()
 			panic(err)
 		}
-		maxNodes := int(kvCount.Count)
-		h.RUnlock()
+		maxNodes := int(bound)
 
 		for i := 0; i < maxNodes; i++ {
 			if h.getEntrypoint() != oldEntrypoint {
@@ -518,16 +540,12 @@ func (h *hnsw) findNewLocalEntrypoint(denyList helpers.AllowList, targetLevel in
 		return h.getEntrypoint(), h.currentMaximumLayer
 	}
 
-	kvCount, err := h.nodes.KVCount(h.className)
+	bound, err := h.idBound()
 	if err != nil {
 		panic(err)
 	}
-	maxNodes := int(kvCount.Count)
+	maxNodes := int(bound)
 
-	keys := h.indexCache.Keys()
-	if len(keys) > maxNodes {
-		maxNodes = len(keys)
-	}
 	for l := targetLevel; l >= 0; l-- {
 		// ideally we can find a new entrypoint at the same Level of the
 		// to-be-deleted node. However, there is a chance it was the only node on
-- 
2.43.0


From dc3cf9bdf1a340471b868e63c2b53dc7df9d0924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:09 +0000
Subject: [PATCH 35/35] fix: a node that loses its links to deleted nodes
 during cleanup is stored again

---
 pkg/hnsw/delete.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/hnsw/delete.go b/pkg/hnsw/delete.go
index 5670371..c51bbb6 100644
--- a/pkg/hnsw/delete.go
+++ b/pkg/hnsw/delete.go
@@ -354,6 +354,7 @@ func (h *hnsw) reassignNeighbor(neighbor uint64, deleteList helpers.AllowList, b
 			// delete all existing Connections before re-assigning
 			neighborLevel = neighborNode.Level
 			neighborNode.Connections = make([][]uint64, neighborLevel+1)
+			neighborNode.Committed = false
 			neighborNode.Unlock()
 
 			if err := h.commitLog.ClearLinks(neighbor); err != nil {
@@ -383,6 +384,7 @@ func (h *hnsw) reassignNeighbor(neighbor uint64, deleteList helpers.AllowList, b
 	for level := range neighborNode.Connections {
 		neighborNode.Connections[level] = neighborNode.Connections[level][:0]
 	}
+	neighborNode.Committed = false
 	neighborNode.Unlock()
 	if err := h.commitLog.ClearLinks(neighbor); err != nil {
 		return false, err
-- 
2.43.0

