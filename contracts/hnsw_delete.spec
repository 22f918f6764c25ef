package hnsw

// ---- tombstones
extern errors.Is(err, target) (r)
  ensures r <==> isErr(err, target)
  ensures err == nil && target != nil ==> !r
ufun isErr(Int, Int) Bool
extern errors.Wrapf(err, format, args) (r)
  ensures r == nil <==> err == nil
  ensures forall t int :: {isErr(r, t)} err != nil ==> (isErr(r, t) <==> isErr(err, t))
extern errors.Wrap(err, message) (r)
  ensures r == nil <==> err == nil
  ensures forall t int :: {isErr(r, t)} err != nil ==> (isErr(r, t) <==> isErr(err, t))
ufun stopNow(Int) Bool
ignoretype hnsw.breakCleanUpTombstonedNodesFunc
ignoretype cyclemanager.ShouldBreakFunc
extern helpers.AllowList.IsEmpty(a) (r)
  ensures r <==> forall x int :: {select(select(allowSet, a), x)} !allows(a, x)
// what was removed from the node cache and from the node store since the call began
ghost goneCache (Array Int Bool)
ghost goneStore (Array Int Bool)
extern lru.Cache.Remove(c, key) (present)
  modifies ghost(goneCache)
  ensures isType(key, "uint64") ==> goneCache == old(store(goneCache, unbox(key, "uint64"), true))
extern collection.KeyValue.KVDelete(kv, table, key) (value, err)
  modifies ghost(goneStore)
  ensures isNodeKey(key) && isErr(err, collection.ErrEntryNotFound) ==> goneStore == old(store(goneStore, idOfKey(key), true))
  ensures !(isNodeKey(key) && isErr(err, collection.ErrEntryNotFound)) ==> goneStore == old(goneStore)

func hnsw.tombstonesAsDenyList(h) (r)
  requires h.tombstones != nil
  modifies ghost(allowSet)
  inv <d ~helpers.AllowList> forall x int :: {visited(x)} visited(x) ==> allows(d, x)
  inv <d ~helpers.AllowList> forall x int :: {select(select(allowSet, d), x)} allows(d, x) ==> x in dom(h.tombstones)
  inv <s []uint64> fresh(s) && forall k int :: {s[k]} {at(k)} 0 <= k < len(s) ==> s[k] in dom(h.tombstones)
  inv <s []uint64> at(len(s)) && (forall x int :: {visited(x)} visited(x) ==> exists k int :: {at(k)} at(k) && 0 <= k < len(s) && s[k] == x)
  ensures r != nil
  ensures [all P08] forall x int :: {x in dom(h.tombstones)} x in dom(h.tombstones) ==> allows(r, x)
  ensures [only P08] forall x int :: {select(select(allowSet, r), x)} allows(r, x) ==> x in dom(h.tombstones)

func hnsw.copyTombstonesToAllowList(h, stop) (ok, r)
  requires h.tombstones != nil
  modifies ghost(allowSet)
  inv <d ~helpers.AllowList> forall x int :: {visited(x)} visited(x) ==> allows(d, x)
  inv <d ~helpers.AllowList> forall x int :: {select(select(allowSet, d), x)} allows(d, x) ==> x in dom(h.tombstones)
  inv <s []uint64> fresh(s) && forall k int :: {s[k]} {at(k)} 0 <= k < len(s) ==> s[k] in dom(h.tombstones)
  inv <s []uint64> at(len(s)) && (forall x int :: {visited(x)} visited(x) ==> exists k int :: {at(k)} at(k) && 0 <= k < len(s) && s[k] == x)
  ensures [list P08] ok ==> r != nil
  ensures [all P08] ok ==> forall x int :: {x in dom(h.tombstones)} x in dom(h.tombstones) ==> allows(r, x)
  ensures [only P08] ok ==> forall x int :: {select(select(allowSet, r), x)} allows(r, x) ==> x in dom(h.tombstones)

func hnsw.removeTombstonesAndNodes(h, list, stop) (ok, err)
  opt keep=yes
  requires h.tombstones != nil && list != nil && h.compressed.v == 0
  presumes [start] goneCache == emptyset("(Array Int Bool)") && goneStore == emptyset("(Array Int Bool)")
  modifies h.tombstones[*], ghost(goneCache), ghost(goneStore), ghost(itSeen)
  inv <> forall x int :: {select(goneCache, x)} {x in dom(h.tombstones)} old(x in dom(h.tombstones)) && !(x in dom(h.tombstones)) ==> select(goneCache, x) && select(goneStore, x)
  inv <> forall x int :: {x in dom(h.tombstones)} x in dom(h.tombstones) ==> old(x in dom(h.tombstones))
  inv <> forall x int :: {x in dom(h.tombstones)} old(x in dom(h.tombstones)) && !allows(list, x) ==> x in dom(h.tombstones)
  inv <c uint64, ok bool> ok ==> allows(list, c) && select(itSeen, c)
  inv <ok bool> !ok ==> forall x int :: {select(select(allowSet, list), x)} allows(list, x) ==> select(itSeen, x)
  inv <c uint64, ok bool> forall x int :: {select(itSeen, x)} select(itSeen, x) && !(ok && x == c) ==> !(x in dom(h.tombstones))
  inv <c ~uint64> select(goneCache, c)
  inv <c ~uint64, e error> e != nil && isErr(e, collection.ErrEntryNotFound) ==> select(goneStore, c)
  // a tombstone is only forgotten once its node is gone from the cache and from the store
  ensures [gone P08] forall x int :: {x in dom(h.tombstones)} old(x in dom(h.tombstones)) && !(x in dom(h.tombstones)) ==> select(goneCache, x) && select(goneStore, x)
  ensures [kept P08] forall x int :: {x in dom(h.tombstones)} old(x in dom(h.tombstones)) && !allows(list, x) ==> x in dom(h.tombstones)
  ensures [done P08] ok && err == nil ==> forall x int :: {x in dom(h.tombstones)} allows(list, x) ==> !(x in dom(h.tombstones))

func connectionsPointTo(conns, needles) (r)
  opt keep=yes
  requires needles != nil
  inv <i int> forall l, k int :: {conns[l][k]} 0 <= l <= i && l < len(conns) && 0 <= k < len(conns[l]) ==> !allows(needles, conns[l][k])
  inv <i ~int, j int> forall l, k int :: {conns[l][k]} 0 <= l < len(conns) && 0 <= k < len(conns[l]) && (l < i || (l == i && k <= j)) ==> !allows(needles, conns[l][k])
  inv <i int, f bool> !f ==> forall l, k int :: {conns[l][k]} 0 <= l <= i && l < len(conns) && 0 <= k < len(conns[l]) ==> !allows(needles, conns[l][k])
  inv <i ~int, j int, f bool> !f ==> forall l, k int :: {conns[l][k]} 0 <= l < len(conns) && 0 <= k < len(conns[l]) && (l < i || (l == i && k <= j)) ==> !allows(needles, conns[l][k])
  inv <f bool> f ==> exists l, k int :: {conns[l][k]} 0 <= l < len(conns) && 0 <= k < len(conns[l]) && allows(needles, conns[l][k])
  ensures [exact P08] !r ==> forall l, k int :: {conns[l][k]} 0 <= l < len(conns) && 0 <= k < len(conns[l]) ==> !allows(needles, conns[l][k])
  ensures [some P08] r ==> exists l, k int :: {conns[l][k]} 0 <= l < len(conns) && 0 <= k < len(conns[l]) && allows(needles, conns[l][k])

func hnsw.getEntrypoint(h) (r)
  ensures [value P08] r == h.entryPointID

func hnsw.findNewGlobalEntrypoint(h, deny, target, prev) (id, l, ok)
  requires deny != nil
  ensures [denied P08] ok ==> !allows(deny, id) && 0 <= l <= target
func hnsw.deleteEntrypoint(h, node, deny) (err)
  requires deny != nil
  modifies h.entryPointID, h.currentMaximumLayer
  ensures [denied P08] h.entryPointID == old(h.entryPointID) || !allows(deny, h.entryPointID)
func hnsw.resetUnsecured(h) (err)
  requires [locked] locked(h.RWMutex) >= 1048576
  modifies h.resetCtx, h.resetCtxCancel, h.entryPointID, h.currentMaximumLayer, h.initialInsertOnce
  ensures [reset P08] h.entryPointID == 0 && h.currentMaximumLayer == 0
func hnsw.Delete(h, ids) (err)
  requires h.tombstones != nil
  modifies h.tombstones[*], h.resetCtx, h.resetCtxCancel, h.entryPointID, h.currentMaximumLayer, h.initialInsertOnce, ghost(allowSet)
  inv <> forall k int :: {ids[k]} 0 <= k < len(ids) ==> ids[k] in dom(h.tombstones)
  inv <> forall x int :: {x in dom(h.tombstones)} old(x in dom(h.tombstones)) ==> x in dom(h.tombstones)
  ensures [added P08] err == nil ==> forall k int :: {ids[k]} 0 <= k < len(ids) ==> ids[k] in dom(h.tombstones)
  ensures [grow P08] forall x int :: {x in dom(h.tombstones)} old(x in dom(h.tombstones)) ==> x in dom(h.tombstones)
func hnsw.findNewLocalEntrypoint(h, deny, level, prev) (id, l)
  requires deny != nil
  ensures [denied P08] h.entryPointID == prev ==> !allows(deny, id) || (id == 0 && l == 0)
  ensures [global P08] h.entryPointID != prev ==> id == h.entryPointID && l == h.currentMaximumLayer

// kvRows: the number of entries in the store; cachedKeys: the ids in the node cache when they are listed
ghost kvRows Int
ghost cachedKeys (Array Int Bool)
ufun keyPos(Int, Int) Int
extern collection.KeyValue.KVCount(kv, table) (r, err)
  ensures err == nil ==> r != nil && r.Count == kvRows
extern lru.Cache.Keys(c) (r)
  ensures forall i int :: {r[i]} 0 <= i < len(r) ==> isType(r[i], "uint64") && unbox(r[i], "uint64") < 1000000000000
  ensures forall x int :: {select(cachedKeys, x)} select(cachedKeys, x) ==> 0 <= keyPos(arr(r), x) < len(r) && unbox(r[keyPos(arr(r), x)], "uint64") == x
// every node, cached or stored, has an id below the bound
func hnsw.idBound(h) (n, err)
  presumes [range] 0 <= kvRows < 1000000000000 && 0 <= storedCount < 1000000000000
  inv <b uint64> b <= 1000000000000
  ensures [small P08] err == nil ==> n <= 1000000000000
  inv <i int, s ~[]interface{}, b uint64> forall k int :: {s[k]} 0 <= k <= i ==> unbox(s[k], "uint64") < b
  inv <b uint64> b >= kvRows
  ensures [rows P08] err == nil ==> n >= kvRows
  inv <b uint64> b >= storedCount
  ensures [counted P08] err == nil ==> n >= storedCount
  ensures [cached P08] err == nil ==> forall x int :: {select(cachedKeys, x)} select(cachedKeys, x) ==> x < n
// examined: ids reassignNeighbor has dealt with
ghost examined (Array Int Bool)
extern hnsw.cache.delete(c, ctx, id)

func hnsw.reassignNeighbor(h, id, list, stop) (ok, err)
  opt keep=yes
  requires okBuild(h) && list != nil && h.efConstruction >= 0 && h.efConstruction < 1000000000
  presumes [level] forall v *vertex :: {v.Level} v.Level < 1000000
  modifies any(vertex.Maintenance), any(vertex.Committed), any(vertex.Level), any(vertex.Connections), anyelem("[]uint64"), anyelem("uint64"), h.tombstones[*], h.pools.visitedLists.listSets, anyelem("visited.ListSet"), anyelem("uint8"), ghost(allowSet), ghost(relinked), ghost(examined)
  inv <> relist()
  assumes [def] ok && err == nil ==> select(examined, id)
  assumes [def] forall x int :: {select(examined, x)} old(select(examined, x)) ==> select(examined, x)
  ensures [relist P08 P09] relist()
  requires [restore P08 P09] restore()
  ensures [stored P08 P09] err == nil ==> restore()
  inv <v ~*vertex> linked(v) && okNode(v, id)
  ensures [index P08] okBuild(h)
  ensures [grow P08] forall x int :: {x in dom(h.tombstones)} old(x in dom(h.tombstones)) ==> x in dom(h.tombstones)
extern hnsw.cache.get(c, ctx, id) (vec, err)
  ensures err == nil ==> seq(vec) == nodeVec(id)

macro cleanable(h) = okBuild(h) && h.efConstruction >= 0 && h.efConstruction < 1000000000
func hnsw.reassignNeighborsOf(h, list, stop) (ok, err)
  opt keep=yes
  requires cleanable(h) && list != nil
  modifies any(vertex.Maintenance), any(vertex.Committed), any(vertex.Level), any(vertex.Connections), anyelem("[]uint64"), anyelem("uint64"), h.tombstones[*], h.pools.visitedLists.listSets, anyelem("visited.ListSet"), anyelem("uint8"), ghost(allowSet), ghost(relinked), ghost(examined)
  inv <i int> forall x int :: {select(examined, x)} 0 <= x < i ==> select(examined, x)
  inv <i uint64> forall x int :: {select(examined, x)} 0 <= x < i ==> select(examined, x)
  ensures [all P08] ok && err == nil ==> forall x int :: {select(examined, x)} 0 <= x < kvRows ==> select(examined, x)
  ensures [counted P08] ok && err == nil ==> forall x int :: {select(examined, x)} 0 <= x < storedCount ==> select(examined, x)
  ensures [cached P08] ok && err == nil ==> forall x int :: {select(cachedKeys, x)} 0 <= x && select(cachedKeys, x) ==> select(examined, x)
  inv <> relist()
  ensures [relist P08 P09] relist()
  requires [restore P08 P09] restore()
  inv <> restore()
  ensures [stored P08 P09] err == nil ==> restore()
  inv <> okBuild(h)
  inv <> forall x int :: {x in dom(h.tombstones)} old(x in dom(h.tombstones)) ==> x in dom(h.tombstones)
  ensures [index P08] okBuild(h)
  ensures [grow P08] forall x int :: {x in dom(h.tombstones)} old(x in dom(h.tombstones)) ==> x in dom(h.tombstones)

func hnsw.replaceDeletedEntrypoint(h, list, stop) (ok, err)
  requires list != nil
  modifies h.entryPointID, h.currentMaximumLayer, ghost(itSeen), any(entrypoint.ID), any(count.Count)
func hnsw.resetIfEmpty(h) (empty, err)
  modifies h.resetCtx, h.resetCtxCancel, h.entryPointID, h.currentMaximumLayer, h.initialInsertOnce
func hnsw.resetIfOnlyNode(h, needle, deny) (only, err)
  modifies h.resetCtx, h.resetCtxCancel, h.entryPointID, h.currentMaximumLayer, h.initialInsertOnce

func hnsw.cleanUpTombstonedNodes(h, stop) (done, err)
  opt also=P09
  requires cleanable(h)
  presumes [start] goneCache == emptyset("(Array Int Bool)") && goneStore == emptyset("(Array Int Bool)")
  modifies any(vertex.Maintenance), any(vertex.Committed), any(vertex.Level), any(vertex.Connections), anyelem("[]uint64"), anyelem("uint64"), h.tombstones[*], h.pools.visitedLists.listSets, anyelem("visited.ListSet"), anyelem("uint8"), ghost(allowSet), ghost(itSeen), ghost(goneCache), ghost(goneStore), h.resetCtx, h.resetCtxCancel, h.entryPointID, h.currentMaximumLayer, h.initialInsertOnce, any(entrypoint.ID), any(count.Count), ghost(relinked), ghost(examined)
  presumes [start] relinked == emptyset("(Array Int Bool)")
  ensures [gone P08] forall x int :: {x in dom(h.tombstones)} old(x in dom(h.tombstones)) && !(x in dom(h.tombstones)) ==> select(goneCache, x) && select(goneStore, x)
extern collection.KeyValue.IsEmpty(kv, table) (r, err)

// tombstones are read and written under their lock
guarded hnsw.hnsw.tombstones by tombstoneLock
guarded hnsw.hnsw.entryPointID by RWMutex writes
guarded hnsw.hnsw.currentMaximumLayer by RWMutex writes
// links are read and written under the lock of their node
guarded hnsw.vertex.Connections by Mutex
guarded hnsw.vertex.Maintenance by Mutex
