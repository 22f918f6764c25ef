package hnsw

ignoretype hnsw.Metrics
ignoretype hnsw.insertMetrics

// ---- vectors and distances
// seq(s) is a code of the components of s; metric the distance of two such codes under a provider.
ufun metric(Int, Int, Int) Real
axiom forall p, a, b int :: {metric(p,a,b)} metric(p,a,b) == metric(p,b,a)
ufun queryOf(Int) Int
ufun provOf(Int) Int
ufun provType(Int) String
// the vector of the node with a given id (ids are assigned once, see P10)
ufun nodeVec(Int) Int
macro qdist(h, q, id) = metric(h.distancerProvider, q, nodeVec(id))

extern distancer.Provider.New(p, a) (d)
  ensures d != nil && queryOf(d) == seq(a) && provOf(d) == p
ufun comparable(Int, Int, Int) Bool
axiom forall p, a, b int :: {comparable(p,a,b)} comparable(p,a,b) <==> comparable(p,b,a)
extern distancer.Provider.SingleDist(p, a, b) (r, ok, err)
  ensures err == nil ==> ok && r == metric(p, seq(a), seq(b))
  ensures err == nil <==> comparable(p, seq(a), seq(b))
extern distancer.Provider.Type(p) (r)
  ensures r == provType(p)
extern distancer.Distancer.Distance(d, v) (r, ok, err)
  ensures err == nil ==> r == metric(provOf(d), queryOf(d), seq(v))

// ---- allow lists
ghost allowSet (Array Int (Array Int Bool))
macro allows(a, id) = select(select(allowSet, a), id)
extern helpers.AllowList.Contains(a, id) (r)
  ensures r <==> allows(a, id)
ufun setLen((Array Int Bool)) Int
extern helpers.AllowList.Len(a) (n)
  ensures n >= 0 && n == setLen(select(allowSet, a))
ufun listOf(Int) Int
ghost itSeen (Array Int Bool)
extern helpers.AllowList.Iterator(a) (it)
  ensures it != nil && listOf(it) == a
  update itSeen := emptyset("(Array Int Bool)")
extern helpers.AllowListIterator.Next(it) (id, ok)
  modifies ghost(itSeen)
  ensures ok ==> allows(listOf(it), id) && !old(select(itSeen, id)) && itSeen == old(store(itSeen, id, true))
  ensures !ok ==> itSeen == old(itSeen) && (forall x int :: {allows(listOf(it), x)} allows(listOf(it), x) ==> select(itSeen, x))

// ---- node cache and node store
macro okNode(v, id) = v.Id == id && seq(v.Vector) == nodeVec(id) && len(v.Connections) == v.Level + 1
ufun idOfKey(String) Int
ufun isNodeKey(String) Bool
ufun isDocQuery(String) Bool
ufun idOfQuery(String) Int
ufun jsonId(Int) Int
ufun jsonVec(Int) Int
ufun missing(Int) Bool
extern lru.Cache.Get(c, key) (value, ok)
  ensures ok && isType(key, "string") ==> isType(value, "[]float32")
  ensures ok && isType(key, "uint64") ==> isType(value, "*vertex") && unbox(value, "*vertex") != nil && okNode(unbox(value, "*vertex"), unbox(key, "uint64")) && linked(unbox(value, "*vertex"))
extern lru.Cache.Add(c, key, value) (evicted)
  requires [docs P10] isType(key, "string") ==> isType(value, "[]float32")
  requires [cached P05 P09] isType(key, "string") || isType(key, "uint64") && isType(value, "*vertex") && (unbox(value, "*vertex") != nil ==> okNode(unbox(value, "*vertex"), unbox(key, "uint64")))
  requires [links P07] isType(value, "*vertex") && unbox(value, "*vertex") != nil ==> linked(unbox(value, "*vertex"))
extern hnsw.cache.prefetch(c, id)
  ignore
extern hnsw.cache.preload(c, id, v)
  ignore

extern fmt.Sprintf(format, args) (r)
  ensures format == '%s=%s' && len(args) == 2 && isType(args[0], "string") && isType(args[1], "string") ==> r == unbox(args[0], "string") + "=" + unbox(args[1], "string")
  ensures (format == "%d" || format == "%v") && len(args) == 1 && isType(args[0], "uint64") ==> isNodeKey(r) && idOfKey(r) == unbox(args[0], "uint64")
  ensures format == "%s=%d" && len(args) == 2 && isType(args[0], "string") && unbox(args[0], "string") == "hnswId" && isType(args[1], "uint64") ==> isDocQuery(r) && idOfQuery(r) == unbox(args[1], "uint64")
extern fmt.Sprint(args) (r)
  ensures len(args) == 1 && isType(args[0], "uint64") ==> isNodeKey(r) && idOfKey(r) == unbox(args[0], "uint64")
extern strconv.FormatUint(i, base) (r)
  ensures base == 10 ==> isNodeKey(r) && idOfKey(r) == i
extern strconv.FormatInt(i, base) (r)
  ensures base == 10 && i >= 0 ==> isNodeKey(r) && idOfKey(r) == i
// the store returns what was put under a key, and the JSON form of a node restores it
extern collection.KeyValue.KVGet(kv, table, key) (cols, value, err)
  ensures err == nil && isNodeKey(key) ==> jsonId(seq(value)) == idOfKey(key) && jsonVec(seq(value)) == nodeVec(idOfKey(key))
  ensures err == nil && key == "entrypoint" ==> jsonEntry(seq(value)) == storedEntry
  ensures err == nil && key == "count" ==> jsonCount(seq(value)) == storedCount
  ensures err != nil && isErr(err, collection.ErrEntryNotFound) && key == "entrypoint" ==> !entryStored
  ensures err != nil && isErr(err, collection.ErrEntryNotFound) && key == "count" ==> storedCount == 0
// the document in its JSON form: its id, and what it says the id of its vector is
ufun jsonIdOf(Int) Int
ufun jsonLink(Int) Int
ufun linkOf(Int) Int
axiom forall s int :: {jsonLink(s)} linkOf(jsonLink(s)) == docIdOf(s)
extern json.Unmarshal(data, dst) (err)
  ensures err != nil ==> !isErr(err, collection.ErrEntryNotFound)
  ensures err == nil && isType(dst, "*map[string]interface{}") && *unbox(dst, "*map[string]interface{}") != nil ==> (*unbox(dst, "*map[string]interface{}"))["hnswId"] == jsonLink(old(seq(data))) && (*unbox(dst, "*map[string]interface{}"))["id"] == jsonIdOf(old(seq(data)))
  modifies *unbox(dst, "*map[string]interface{}"), (*unbox(dst, "*map[string]interface{}"))[*], *unbox(dst, "**vertex"), unbox(dst, "*entrypoint").ID, unbox(dst, "*count").Count, unbox(dst, '*struct{HnswId *uint64 `json:"hnswId"`}').HnswId
  ensures err == nil && isType(dst, '*struct{HnswId *uint64 `json:"hnswId"`}') && unbox(dst, '*struct{HnswId *uint64 `json:"hnswId"`}').HnswId != nil ==> *(unbox(dst, '*struct{HnswId *uint64 `json:"hnswId"`}').HnswId) == docIdOf(old(seq(data)))
  ensures err == nil && isType(dst, "*entrypoint") ==> unbox(dst, "*entrypoint").ID == jsonEntry(old(seq(data)))
  ensures err == nil && isType(dst, "*count") ==> unbox(dst, "*count").Count == jsonCount(old(seq(data)))
  ensures err == nil && isType(dst, "**vertex") && *unbox(dst, "**vertex") != nil ==> fresh(*unbox(dst, "**vertex")) && (*unbox(dst, "**vertex")).Id == jsonId(old(seq(data))) && seq((*unbox(dst, "**vertex")).Vector) == jsonVec(old(seq(data))) && len((*unbox(dst, "**vertex")).Connections) == (*unbox(dst, "**vertex")).Level + 1 && linked(*unbox(dst, "**vertex"))

func hnsw.nodeByID(h, id) (v)
  ensures [id P05 P09] v != nil ==> okNode(v, id)
  ensures [links P07] v != nil ==> linked(v)
  assumes [missing] v == nil ==> missing(id)

func hnsw.hasTombstone(h, id) (r)
  requires h.tombstones != nil
  ensures [exact P05 P08] r <==> id in dom(h.tombstones)

func hnsw.addTombstone(h, ids) (err)
  requires h.tombstones != nil
  modifies h.tombstones[*]
  inv <i int> forall k int :: {ids[k]} 0 <= k < i && k < len(ids) ==> ids[k] in dom(h.tombstones)
  inv <> forall x int :: {x in dom(h.tombstones)} old(x in dom(h.tombstones)) ==> x in dom(h.tombstones)
  ensures [grow P05 P08] forall x int :: {x in dom(h.tombstones)} old(x in dom(h.tombstones)) ==> x in dom(h.tombstones)
  ensures [added P08] err == nil ==> forall k int :: {ids[k]} 0 <= k < len(ids) ==> ids[k] in dom(h.tombstones)

// ---- pools
ufun poolKind(Int) Int
extern sync.Pool.Get(p) (r)
  ensures poolKind(p) == 1 || poolKind(p) == 2 ==> isType(r, "*priorityqueue.Queue") && unbox(r, "*priorityqueue.Queue") != nil && fresh(unbox(r, "*priorityqueue.Queue")) && fresh(unbox(r, "*priorityqueue.Queue").items) && unbox(r, "*priorityqueue.Queue").less != nil
  ensures poolKind(p) == 1 ==> forall a, b priorityqueue.Item :: {unbox(r, "*priorityqueue.Queue").less(a,b)} unbox(r, "*priorityqueue.Queue").less(a,b) <==> a.Dist < b.Dist
  ensures poolKind(p) == 2 ==> forall a, b priorityqueue.Item :: {unbox(r, "*priorityqueue.Queue").less(a,b)} unbox(r, "*priorityqueue.Queue").less(a,b) <==> a.Dist > b.Dist
  ensures poolKind(p) == 3 ==> isType(r, "*priorityqueue.QueueWithIndex") && unbox(r, "*priorityqueue.QueueWithIndex") != nil && fresh(unbox(r, "*priorityqueue.QueueWithIndex")) && fresh(unbox(r, "*priorityqueue.QueueWithIndex").items) && unbox(r, "*priorityqueue.QueueWithIndex").less != nil
  ensures poolKind(p) == 3 ==> forall a, b priorityqueue.ItemWithIndex :: {unbox(r, "*priorityqueue.QueueWithIndex").less(a,b)} unbox(r, "*priorityqueue.QueueWithIndex").less(a,b) <==> a.Dist < b.Dist
  ensures poolKind(p) == 4 ==> isType(r, "[]priorityqueue.ItemWithIndex") && len(unbox(r, "[]priorityqueue.ItemWithIndex")) == 0 && fresh(unbox(r, "[]priorityqueue.ItemWithIndex"))
extern sync.Pool.Put(p, x)
  requires [minpool P05] poolKind(p) == 1 ==> isType(x, "*priorityqueue.Queue") && forall a, b priorityqueue.Item :: {unbox(x, "*priorityqueue.Queue").less(a,b)} unbox(x, "*priorityqueue.Queue").less(a,b) <==> a.Dist < b.Dist
  requires [maxpool P05] poolKind(p) == 2 ==> isType(x, "*priorityqueue.Queue") && forall a, b priorityqueue.Item :: {unbox(x, "*priorityqueue.Queue").less(a,b)} unbox(x, "*priorityqueue.Queue").less(a,b) <==> a.Dist > b.Dist
  requires [idxpool P07] poolKind(p) == 3 ==> isType(x, "*priorityqueue.QueueWithIndex") && forall a, b priorityqueue.ItemWithIndex :: {unbox(x, "*priorityqueue.QueueWithIndex").less(a,b)} unbox(x, "*priorityqueue.QueueWithIndex").less(a,b) <==> a.Dist < b.Dist
  requires [itempool P07] poolKind(p) == 4 ==> isType(x, "[]priorityqueue.ItemWithIndex") && len(unbox(x, "[]priorityqueue.ItemWithIndex")) == 0

func newPqMinPool$1() (r)
  requires 0 <= defaultCap < 1000000000000
  ensures [kind P05] isType(r, "*priorityqueue.Queue") && forall a, b priorityqueue.Item :: {unbox(r, "*priorityqueue.Queue").less(a,b)} unbox(r, "*priorityqueue.Queue").less(a,b) <==> a.Dist < b.Dist
func newPqMaxPool$1() (r)
  requires 0 <= defaultCap < 1000000000000
  ensures [kind P05] isType(r, "*priorityqueue.Queue") && forall a, b priorityqueue.Item :: {unbox(r, "*priorityqueue.Queue").less(a,b)} unbox(r, "*priorityqueue.Queue").less(a,b) <==> a.Dist > b.Dist

macro minq(q) = heap(q) && (forall a, b priorityqueue.Item :: {q.less(a,b)} q.less(a,b) <==> a.Dist < b.Dist)
macro maxq(q) = heap(q) && (forall a, b priorityqueue.Item :: {q.less(a,b)} q.less(a,b) <==> a.Dist > b.Dist)

func pqMinPool.GetMin(p, capacity) (q)
  requires poolKind(p.pool) == 1 && 0 <= capacity < 1000000000000
  ensures [min P05] q != nil && minq(q) && distinctq(q) && len(q.items) == 0 && fresh(q) && fresh(q.items)
func pqMaxPool.GetMax(p, capacity) (q)
  requires poolKind(p.pool) == 2 && 0 <= capacity < 1000000000000
  ensures [max P05] q != nil && maxq(q) && distinctq(q) && len(q.items) == 0 && fresh(q) && fresh(q.items)
func pqMinPool.Put(p, q)
  requires poolKind(p.pool) == 1 && minq(q)
func pqMaxPool.Put(p, q)
  requires poolKind(p.pool) == 2 && maxq(q)

macro okPools(h) = poolKind(h.pools.pqCandidates.pool) == 1 && poolKind(h.pools.pqResults.pool) == 2 && okPool(h.pools.visitedLists)
macro okIndex(h) = h.compressed.v == 0 && h.pools != nil && h.pools.visitedLists != nil && h.pools.pqCandidates != nil && h.pools.pqResults != nil && okPools(h) && h.tombstones != nil && h.distancerProvider != nil && 0 <= h.maximumConnectionsLayerZero < 1000000

// ---- distances
func hnsw.distanceToFloatNode(h, d, id) (r, ok, err)
  ensures [value P05 P06] err == nil ==> ok && r == metric(provOf(d), queryOf(d), nodeVec(id))
func hnsw.distanceToFloatVector(h, d, v) (r, ok, err)
  ensures [value P05] err == nil ==> ok && r == metric(provOf(d), queryOf(d), seq(v))
func hnsw.distBetweenNodeAndVec(h, id, v) (r, ok, err)
  requires h.compressed.v == 0
  ensures [value P05 P06] err == nil ==> ok && r == qdist(h, seq(v), id)


// ---- one layer
macro good(h, q, x) = x.Dist == qdist(h, q, x.ID)
macro keep(h, level, al, x) = !(x.ID in dom(h.tombstones)) && (level == 0 && al != nil ==> allows(al, x.ID))

func hnsw.insertViableEntrypointsAsCandidatesAndResults(h, eps, candidates, results, level, vl, al)
  requires okIndex(h) && minq(eps) && minq(candidates) && maxq(results) && okList(vl.set) && len(vl.set) < 1000000000000
  requires eps != candidates && eps != results && candidates != results
  requires arr(eps.items) != arr(candidates.items) && arr(eps.items) != arr(results.items) && arr(candidates.items) != arr(results.items)
  requires allocated(eps.items) && allocated(candidates.items) && allocated(results.items)
  requires len(eps.items) == 1 && len(candidates.items) == 0 && len(results.items) == 0
  requires forall i int :: {has(vl.set, i)} !has(vl.set, i)
  requires distinctq(candidates) && distinctq(results)
  modifies eps.items, eps.items[*], candidates.items, candidates.items[*], results.items, results.items[*], vl.set, vl.set[*]
  inv <> okList(vl.set) && len(vl.set) < 1000000000000
  inv <> arr(vl.set) == old(arr(vl.set)) || fresh(vl.set)
  inv <> (arr(candidates.items) == old(arr(candidates.items)) || fresh(candidates.items)) && (arr(results.items) == old(arr(results.items)) || fresh(results.items)) && arr(candidates.items) != arr(results.items)
  inv <> arr(eps.items) == old(arr(eps.items)) && arr(eps.items) != arr(candidates.items) && arr(eps.items) != arr(results.items) && allocated(candidates.items) && allocated(results.items)
  inv <> len(eps.items) + len(candidates.items) == 1 && len(results.items) <= len(candidates.items)
  inv <> minq(eps) && minq(candidates) && maxq(results)
  inv <> distinctq(candidates) && distinctq(results)
  inv <> forall x priorityqueue.Item :: {cnt(eps.items, len(eps.items), x)} inq(eps, x) ==> !inq(candidates, x)
  inv <> len(eps.items) == 1 ==> len(candidates.items) == 0 && len(results.items) == 0
  inv <> forall x priorityqueue.Item :: {cnt(eps.items, len(eps.items), x)} inq(eps, x) ==> old(inq(eps, x))
  inv <> forall x priorityqueue.Item :: {cnt(candidates.items, len(candidates.items), x)} inq(candidates, x) ==> old(inq(eps, x)) && has(vl.set, x.ID)
  inv <> forall x priorityqueue.Item :: {cnt(results.items, len(results.items), x)} inq(results, x) ==> old(inq(eps, x)) && keep(h, level, al, x)
  ensures [heaps P05] len(eps.items) == 0 && minq(candidates) && maxq(results) && okList(vl.set)
  ensures [distinct P05] distinctq(candidates) && distinctq(results)
  ensures [size P05] len(vl.set) < 1000000000000
  ensures [cand P05] len(candidates.items) == 1 && (forall x priorityqueue.Item :: {cnt(candidates.items, len(candidates.items), x)} inq(candidates, x) ==> old(inq(eps, x)) && has(vl.set, x.ID))
  ensures [res P05 P06 P08] len(results.items) <= 1 && (forall x priorityqueue.Item :: {cnt(results.items, len(results.items), x)} inq(results, x) ==> old(inq(eps, x)) && keep(h, level, al, x) && has(vl.set, x.ID))
  ensures [own P05] (arr(candidates.items) == old(arr(candidates.items)) || fresh(candidates.items)) && (arr(results.items) == old(arr(results.items)) || fresh(results.items)) && arr(candidates.items) != arr(results.items)
  ensures [ownset P05] arr(vl.set) == old(arr(vl.set)) || fresh(vl.set)

func hnsw.currentWorstResultDistanceToFloat(h, results, d) (r, err)
  requires maxq(results)

macro okEps(h, q, eps) = eps != nil && minq(eps) && allocated(eps.items) && len(eps.items) == 1 && (forall x priorityqueue.Item :: {cnt(eps.items, len(eps.items), x)} inq(eps, x) ==> good(h, q, x))

func hnsw.searchLayerByVector(h, query, eps, ef, level, al) (res, err)
  requires okIndex(h) && okEps(h, seq(query), eps) && 0 <= ef < 1000000000000 && 0 <= level
  modifies eps.items, eps.items[*], h.pools.visitedLists.listSets, anyelem("visited.ListSet"), anyelem("uint8")
  inv <v ~*visited.ListSet> okList(v.set) && len(v.set) < 1000000000000 && allocated(v.set)
  inv <> okIndex(h)
  inv <q ~*priorityqueue.Queue> allocated(q.items) && fresh(q.items)
  inv <q ~*priorityqueue.Queue, r ~*priorityqueue.Queue> q != r ==> arr(q.items) != arr(r.items)
  inv <q ~*priorityqueue.Queue> minq(q)
  inv <q ~*priorityqueue.Queue> maxq(q)
  inv <q ~*priorityqueue.Queue> distinctq(q)
  inv <q ~*priorityqueue.Queue> len(q.items) <= max(ef, 1)
  inv <q ~*priorityqueue.Queue> forall x priorityqueue.Item :: {cnt(q.items, len(q.items), x)} inq(q, x) ==> good(h, old(seq(query)), x)
  inv <q ~*priorityqueue.Queue> forall x priorityqueue.Item :: {cnt(q.items, len(q.items), x)} inq(q, x) ==> keep(h, level, al, x)
  inv <q ~*priorityqueue.Queue, v ~*visited.ListSet> forall x priorityqueue.Item :: {cnt(q.items, len(q.items), x)} inq(q, x) ==> has(v.set, x.ID)
  inv <n ~[]hnsw.neighbourDistance, q ~*priorityqueue.Queue> forall i int, x priorityqueue.Item :: {n[i], cnt(q.items, len(q.items), x)} 0 <= i < len(n) && inq(q, x) ==> n[i].id != x.ID
  inv <n ~[]hnsw.neighbourDistance, j int, q ~*priorityqueue.Queue> forall i int, x priorityqueue.Item :: {n[i], cnt(q.items, len(q.items), x)} j <= i < len(n) && inq(q, x) ==> n[i].id != x.ID
  inv <n ~[]hnsw.neighbourDistance> forall i int :: {n[i]} 0 <= i < len(n) ==> n[i].dist == qdist(h, old(seq(query)), n[i].id)
  inv <n ~[]hnsw.neighbourDistance> forall i, k int :: {n[i], n[k]} 0 <= i < k < len(n) ==> n[i].id != n[k].id
  inv <n ~[]hnsw.neighbourDistance, v ~*visited.ListSet> forall i int :: {n[i]} 0 <= i < len(n) ==> has(v.set, n[i].id)
  ensures [index P05] okIndex(h)
  ensures [heap P05 P06] err == nil ==> maxq(res) && fresh(res) && fresh(res.items)
  ensures [dist P05 P06] err == nil ==> forall x priorityqueue.Item :: {cnt(res.items, len(res.items), x)} inq(res, x) ==> good(h, old(seq(query)), x)
  ensures [keep P05 P06 P08] err == nil ==> forall x priorityqueue.Item :: {cnt(res.items, len(res.items), x)} inq(res, x) ==> keep(h, level, al, x)
  ensures [distinct P05 P06] err == nil ==> distinctq(res)
  ensures [len P05] err == nil ==> len(res.items) <= max(ef, 1)

// ---- k-nearest search
macro effq(h, s) = (if provType(h.distancerProvider) == "cosine-dot" then normSeq(s) else s)
macro pairs(ids, dists) = len(ids) == len(dists)
macro trueDist(h, q, ids, dists) = forall i int :: {dists[i]} 0 <= i < len(ids) ==> dists[i] == qdist(h, q, ids[i])
macro ascending(dists) = forall i, k int :: {dists[i], dists[k]} 0 <= i < k < len(dists) ==> dists[i] <= dists[k]
macro distinctIds(ids) = forall i, k int :: {ids[i], ids[k]} 0 <= i < k < len(ids) ==> ids[i] != ids[k]
macro live(h, ids) = forall i int :: {ids[i]} 0 <= i < len(ids) ==> !(ids[i] in dom(h.tombstones))
macro allowed(al, ids) = al != nil ==> forall i int :: {ids[i]} 0 <= i < len(ids) ==> allows(al, ids[i])

func hnsw.isEmpty(h) (r)
func vertex.isUnderMaintenance(v) (r)

macro autoEf(h, k) = max(k, if k * h.efFactor > h.efMax then h.efMax else max(k * h.efFactor, h.efMin))
func hnsw.searchTimeEF(h, k) (r)
  requires 0 <= k < 1000000000
  presumes [efs] h.efFactor < 1000000 && h.efFactor > -1000000 && h.efMax < 1000000000 && h.efMin < 1000000000 && h.ef < 1000000000
  ensures [atleast P05] r >= k && r < 1000000000000 && r >= 0
  ensures [exact P14] r == (if h.ef < 1 then autoEf(h, k) else max(h.ef, k))
func hnsw.autoEfFromK(h, k) (r)
  requires 0 <= k < 1000000000
  presumes [efs] h.efFactor < 1000000 && h.efFactor > -1000000 && h.efMax < 1000000000 && h.efMin < 1000000000
  ensures [atleast P05] r >= k && r < 1000000000000 && r >= 0
  ensures [exact P14] r == autoEf(h, k)

func hnsw.knnSearchByVector(h, vec, k, ef, al) (ids, dists, err)
  requires okIndex(h) && 0 <= k && 0 <= ef < 1000000000000
  modifies h.tombstones[*], h.pools.visitedLists.listSets, anyelem("visited.ListSet"), anyelem("uint8")
  inv <> okIndex(h)
  inv <> forall x int :: {x in dom(h.tombstones)} old(x in dom(h.tombstones)) ==> x in dom(h.tombstones)
  inv <e uint64, d float32> d == qdist(h, old(seq(vec)), e)
  inv <q ~*priorityqueue.Queue> maxq(q) && distinctq(q)
  inv <q ~*priorityqueue.Queue> fresh(q.items) && allocated(q.items)
  inv <q ~*priorityqueue.Queue, i int> i == len(q.items) - 1
  inv <q ~*priorityqueue.Queue> forall x priorityqueue.Item :: {cnt(q.items, len(q.items), x)} inq(q, x) ==> good(h, old(seq(vec)), x)
  inv <q ~*priorityqueue.Queue> forall x priorityqueue.Item :: {cnt(q.items, len(q.items), x)} inq(q, x) ==> keep(h, 0, al, x)
  inv <a ~[]uint64, d ~[]float32, i int> forall m int :: {a[m]} {d[m]} i < m < len(a) ==> d[m] == qdist(h, old(seq(vec)), a[m])
  inv <a ~[]uint64, i int> forall m int :: {a[m]} i < m < len(a) ==> !(a[m] in dom(h.tombstones)) && (al != nil ==> allows(al, a[m]))
  inv <d ~[]float32, i int> forall m, n int :: {d[m], d[n]} i < m < n < len(d) ==> d[m] <= d[n]
  inv <a ~[]uint64, i int> forall m, n int :: {a[m], a[n]} i < m < n < len(a) ==> a[m] != a[n]
  inv <d ~[]float32, q ~*priorityqueue.Queue, i int> forall x priorityqueue.Item, m int :: {cnt(q.items, len(q.items), x), d[m]} inq(q, x) && i < m < len(d) ==> x.Dist <= d[m]
  inv <a ~[]uint64, q ~*priorityqueue.Queue, i int> forall x priorityqueue.Item, m int :: {cnt(q.items, len(q.items), x), a[m]} inq(q, x) && i < m < len(a) ==> x.ID != a[m]
  ensures [index P05] okIndex(h)
  ensures [grow P05] forall x int :: {x in dom(h.tombstones)} old(x in dom(h.tombstones)) ==> x in dom(h.tombstones)
  ensures [own P05] (len(ids) == 0 || fresh(ids)) && (len(dists) == 0 || fresh(dists))
  ensures [count P05] err == nil ==> len(ids) == len(dists) && len(ids) <= k
  ensures [dist P05 P06] err == nil ==> trueDist(h, old(seq(vec)), ids, dists)
  ensures [sorted P05 P06] err == nil ==> ascending(dists)
  ensures [distinct P05 P06] err == nil ==> distinctIds(ids)
  ensures [live P05 P06 P08] err == nil ==> live(h, ids)
  ensures [allowed P05 P06] err == nil ==> allowed(al, ids)

func hnsw.KnnSearchByVectorMaxDist(h, vec, max, ef, al) (ids, dists, err)
  requires okIndex(h) && 0 <= ef < 1000000000000
  modifies h.pools.visitedLists.listSets, anyelem("visited.ListSet"), anyelem("uint8")
  inv <> okIndex(h)
  inv <e uint64, d float32> d == qdist(h, effq(h, old(seq(vec))), e)
  inv <q ~*priorityqueue.Queue> maxq(q) && distinctq(q)
  inv <q ~*priorityqueue.Queue> fresh(q.items) && allocated(q.items)
  inv <q ~*priorityqueue.Queue, i int> i == len(q.items) - 1
  inv <q ~*priorityqueue.Queue> forall x priorityqueue.Item :: {cnt(q.items, len(q.items), x)} inq(q, x) ==> good(h, effq(h, old(seq(vec))), x) && keep(h, 0, al, x)
  inv <a ~[]priorityqueue.Item, i int> forall m int :: {a[m]} i < m < len(a) ==> good(h, effq(h, old(seq(vec))), a[m]) && keep(h, 0, al, a[m])
  inv <a ~[]priorityqueue.Item, i int> forall m, n int :: {a[m], a[n]} i < m < n < len(a) ==> a[m].Dist <= a[n].Dist && a[m].ID != a[n].ID
  inv <a ~[]priorityqueue.Item, q ~*priorityqueue.Queue, i int> forall x priorityqueue.Item, m int :: {cnt(q.items, len(q.items), x), a[m]} inq(q, x) && i < m < len(a) ==> x.Dist <= a[m].Dist && x.ID != a[m].ID
  inv <a ~[]priorityqueue.Item, o ~[]uint64, d ~[]float32, i int> forall m int :: {o[m]} {d[m]} 0 <= m < i ==> o[m] == a[m].ID && d[m] == a[m].Dist
  inv <d ~[]float32, i int> forall m int :: {d[m]} 0 <= m < i ==> d[m] <= max
  inv <q ~*priorityqueue.Queue> len(q.items) > 0 ==> q.items[0].Dist <= max
  inv <q ~*priorityqueue.Queue> forall x priorityqueue.Item :: {cnt(q.items, len(q.items), x)} inq(q, x) ==> x.Dist <= max
  inv <d ~[]float32, i int> forall m int :: {d[m]} i < m < len(d) ==> d[m] <= max
  inv <a ~[]uint64, d ~[]float32, i int> forall m int :: {a[m]} {d[m]} i < m < len(a) ==> d[m] == qdist(h, effq(h, old(seq(vec))), a[m])
  inv <a ~[]uint64, i int> forall m int :: {a[m]} i < m < len(a) ==> !(a[m] in dom(h.tombstones)) && (al != nil ==> allows(al, a[m]))
  inv <d ~[]float32, i int> forall m, n int :: {d[m], d[n]} i < m < n < len(d) ==> d[m] <= d[n]
  inv <a ~[]uint64, i int> forall m, n int :: {a[m], a[n]} i < m < n < len(a) ==> a[m] != a[n]
  inv <d ~[]float32, q ~*priorityqueue.Queue, i int> forall x priorityqueue.Item, m int :: {cnt(q.items, len(q.items), x), d[m]} inq(q, x) && i < m < len(d) ==> x.Dist <= d[m]
  inv <a ~[]uint64, q ~*priorityqueue.Queue, i int> forall x priorityqueue.Item, m int :: {cnt(q.items, len(q.items), x), a[m]} inq(q, x) && i < m < len(a) ==> x.ID != a[m]
  inv <i int, j int> i == j
  inv <i int, j int> i == j + 1
  ensures [own P12] err == nil ==> fresh(arr(dists)) && fresh(arr(ids))
  ensures [index P06] okIndex(h)
  ensures [within P06] err == nil ==> len(ids) == len(dists) && forall i int :: {dists[i]} 0 <= i < len(dists) ==> dists[i] <= max
  ensures [dist P06] err == nil ==> trueDist(h, effq(h, old(seq(vec))), ids, dists)
  ensures [sorted P06] err == nil ==> ascending(dists)
  ensures [distinct P06] err == nil ==> distinctIds(ids)
  ensures [live P06 P08] err == nil ==> live(h, ids)
  ensures [allowed P06] err == nil ==> allowed(al, ids)

// at(i) is always true; it only names positions for the prover
ufun at(Int) Bool
axiom forall i int :: {at(i)} at(i)
macro relevant(h, q, y) = good(h, q, y) && !(y.ID in dom(h.tombstones)) && !missing(y.ID)
func hnsw.flatSearch(h, vec, limit, al) (ids, dists, err)
  requires okIndex(h) && 0 <= limit < 1000000000000 && al != nil
  modifies ghost(itSeen)
  inv <q ~*priorityqueue.Queue> maxq(q) && distinctq(q)
  inv <q ~*priorityqueue.Queue> fresh(q.items) && allocated(q.items)
  inv <q ~*priorityqueue.Queue> len(q.items) <= limit
  inv <q ~*priorityqueue.Queue, i int> i == len(q.items) - 1
  inv <q ~*priorityqueue.Queue> forall x priorityqueue.Item :: {cnt(q.items, len(q.items), x)} inq(q, x) ==> good(h, old(seq(vec)), x) && !(x.ID in dom(h.tombstones)) && allows(al, x.ID)
  inv <q ~*priorityqueue.Queue> forall x priorityqueue.Item :: {cnt(q.items, len(q.items), x)} inq(q, x) ==> select(itSeen, x.ID)
  inv <c uint64, ok bool> ok ==> allows(al, c) && select(itSeen, c)
  inv <ok bool> !ok ==> forall x int :: {allows(al, x)} allows(al, x) ==> select(itSeen, x)
  inv <q ~*priorityqueue.Queue, c uint64, ok bool> ok ==> forall x priorityqueue.Item :: {cnt(q.items, len(q.items), x)} inq(q, x) ==> x.ID != c
  inv <q ~*priorityqueue.Queue, c uint64, ok bool> forall y priorityqueue.Item :: {cnt(q.items, len(q.items), y)} {missing(y.ID)} relevant(h, old(seq(vec)), y) && select(itSeen, y.ID) && !(ok && y.ID == c) ==> inq(q, y) || (len(q.items) >= limit && forall x priorityqueue.Item :: {cnt(q.items, len(q.items), x)} inq(q, x) ==> x.Dist <= y.Dist)
  inv <i int> at(i) && at(i+1)
  inv <q ~*priorityqueue.Queue, a ~[]uint64, d ~[]float32, i int> forall y priorityqueue.Item :: {cnt(q.items, len(q.items), y)} {missing(y.ID)} relevant(h, old(seq(vec)), y) && allows(al, y.ID) ==> (len(q.items) > 0 && inq(q, y)) || (exists m int :: {at(m)} at(m) && i < m < len(a) && a[m] == y.ID) || (len(a) >= limit && (forall m int :: {d[m]} i < m < len(d) ==> d[m] <= y.Dist) && forall x priorityqueue.Item :: {cnt(q.items, len(q.items), x)} inq(q, x) ==> x.Dist <= y.Dist)
  inv <a ~[]uint64, d ~[]float32, i int> forall m int :: {a[m]} {d[m]} i < m < len(a) ==> d[m] == qdist(h, old(seq(vec)), a[m])
  inv <a ~[]uint64, i int> forall m int :: {a[m]} i < m < len(a) ==> !(a[m] in dom(h.tombstones)) && allows(al, a[m])
  inv <d ~[]float32, i int> forall m, n int :: {d[m], d[n]} i < m < n < len(d) ==> d[m] <= d[n]
  inv <a ~[]uint64, i int> forall m, n int :: {a[m], a[n]} i < m < n < len(a) ==> a[m] != a[n]
  inv <d ~[]float32, q ~*priorityqueue.Queue, i int> forall x priorityqueue.Item, m int :: {cnt(q.items, len(q.items), x), d[m]} inq(q, x) && i < m < len(d) ==> x.Dist <= d[m]
  inv <a ~[]uint64, q ~*priorityqueue.Queue, i int> forall x priorityqueue.Item, m int :: {cnt(q.items, len(q.items), x), a[m]} inq(q, x) && i < m < len(a) ==> x.ID != a[m]
  ensures [own P05] (len(ids) == 0 || fresh(ids)) && (len(dists) == 0 || fresh(dists))
  ensures [count P05] err == nil ==> len(ids) == len(dists) && len(ids) <= limit
  ensures [dist P05] err == nil ==> trueDist(h, old(seq(vec)), ids, dists)
  ensures [nearest P05] err == nil ==> forall y priorityqueue.Item :: relevant(h, old(seq(vec)), y) && allows(al, y.ID) ==> (exists m int :: {at(m)} at(m) && 0 <= m < len(ids) && ids[m] == y.ID) || (len(ids) >= limit && forall m int :: {dists[m]} 0 <= m < len(dists) ==> dists[m] <= y.Dist)
  ensures [sorted P05] err == nil ==> ascending(dists)
  ensures [distinct P05] err == nil ==> distinctIds(ids)
  ensures [live P05 P08] err == nil ==> live(h, ids)
  ensures [allowed P05] err == nil ==> allowed(al, ids)

func hnsw.SearchByVector(h, vec, k, al) (ids, dists, err)
  requires okIndex(h) && 0 <= k
  presumes [limit] k < 1000000000
  modifies h.tombstones[*], h.pools.visitedLists.listSets, anyelem("visited.ListSet"), anyelem("uint8"), ghost(itSeen)
  ensures [index P05] okIndex(h)
  ensures [grow P05] forall x int :: {x in dom(h.tombstones)} old(x in dom(h.tombstones)) ==> x in dom(h.tombstones)
  ensures [own P05] (len(ids) == 0 || fresh(ids)) && (len(dists) == 0 || fresh(dists))
  ensures [count P05] err == nil ==> len(ids) == len(dists) && len(ids) <= k
  ensures [dist P05 P06] err == nil ==> trueDist(h, effq(h, old(seq(vec))), ids, dists)
  ensures [sorted P05 P06] err == nil ==> ascending(dists)
  ensures [distinct P05 P06] err == nil ==> distinctIds(ids)
  ensures [live P05 P06 P08] err == nil ==> live(h, ids)
  ensures [allowed P05 P06] err == nil ==> allowed(al, ids)
  ensures [nearest P05] err == nil && al != nil && !h.forbidFlat && setLen(select(allowSet, al)) < h.flatSearchCutoff ==> forall y priorityqueue.Item :: relevant(h, effq(h, old(seq(vec))), y) && allows(al, y.ID) ==> (exists m int :: {at(m)} at(m) && 0 <= m < len(ids) && ids[m] == y.ID) || (len(ids) >= k && forall m int :: {dists[m]} 0 <= m < len(dists) ==> dists[m] <= y.Dist)

// ---- search within a distance
extern floatcomp.InDelta(a, b, delta) (r)
  ensures r <==> abs(a - b) <= delta

func newSearchByDistParams(maxLimit) (p)
  ensures [start P06] fresh(p) && p.offset == 0 && p.limit == 100 && p.totalLimit == 100 && p.maximumSearchLimit == maxLimit
func searchByDistParams.offsetCapacity(p, ids) (r)
  requires p.offset >= 0
  ensures [cap P06] r == min(p.offset, len(ids))
func searchByDistParams.totalLimitCapacity(p, ids) (r)
  ensures [cap P06] r == min(p.totalLimit, len(ids))
func searchByDistParams.iterate(p)
  requires p.limit >= 0 && p.totalLimit >= 0
  presumes [limits] p.limit < 1000000000000 && p.totalLimit < 1000000000000
  modifies p.offset, p.limit, p.totalLimit
  ensures [next P06] p.offset == old(p.totalLimit) && p.limit == 10 * old(p.limit) && p.totalLimit == p.offset + p.limit
func searchByDistParams.maxLimitReached(p) (r)
  ensures [limit P06] r <==> p.maximumSearchLimit >= 0 && p.totalLimit > p.maximumSearchLimit

macro within(d, max) = d <= max || abs(float64(d) - float64(max)) <= 0.000001
func hnsw.SearchByVectorDistance(h, vec, target, maxLimit, al) (ids, dists, err)
  requires okIndex(h)
  modifies h.tombstones[*], h.pools.visitedLists.listSets, anyelem("visited.ListSet"), anyelem("uint8"), ghost(itSeen)
  inv <> okIndex(h)
  inv <> forall x int :: {x in dom(h.tombstones)} old(x in dom(h.tombstones)) ==> x in dom(h.tombstones)
  inv <p ~*searchByDistParams> 0 <= p.offset <= p.totalLimit && 0 <= p.limit
  inv <p ~*searchByDistParams, a []uint64> len(a) <= p.totalLimit && p.maximumSearchLimit == maxLimit && (maxLimit < 0 || p.totalLimit <= max(100, maxLimit))
  inv <a []uint64> maxLimit >= 0 ==> len(a) <= max(100, maxLimit)
  inv <p ~*searchByDistParams, a []uint64, i int> len(a) <= p.offset + i + 1
  inv <a []uint64, d []float32> len(a) == len(d)
  inv <a []uint64, d []float32> forall i int :: {d[i]} {a[i]} 0 <= i < len(d) ==> d[i] == qdist(h, effq(h, old(seq(vec))), a[i]) && within(d[i], target) 
  inv <a []uint64> (len(a) == 0 && cap(a) == 0) || (fresh(a) && allocated(a))
  inv <a []float32> (len(a) == 0 && cap(a) == 0) || (fresh(a) && allocated(a))
  inv <a []uint64, b ~[]uint64> cap(a) == 0 || len(b) == 0 || arr(a) != arr(b)
  inv <a []float32, b ~[]float32> cap(a) == 0 || len(b) == 0 || arr(a) != arr(b)
  inv <a []uint64> forall i, x int :: {a[i], old(x in dom(h.tombstones))} 0 <= i < len(a) && old(x in dom(h.tombstones)) ==> a[i] != x
  inv <a []uint64> forall i int :: {a[i]} 0 <= i < len(a) && al != nil ==> allows(al, a[i])
  ensures [index P06] okIndex(h)
  ensures [pairs P06] err == nil ==> len(ids) == len(dists)
  ensures [within P06] err == nil ==> forall i int :: {dists[i]} 0 <= i < len(dists) ==> within(dists[i], target)
  ensures [dist P06] err == nil ==> trueDist(h, effq(h, old(seq(vec))), ids, dists)
  ensures [live P06 P08] err == nil ==> forall i, x int :: {ids[i], old(x in dom(h.tombstones))} 0 <= i < len(ids) && old(x in dom(h.tombstones)) ==> ids[i] != x
  ensures [allowed P06] err == nil ==> allowed(al, ids)
  ensures [count P06] err == nil && maxLimit >= 0 ==> len(ids) <= max(100, maxLimit)
