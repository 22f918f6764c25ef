package hnsw

// ---- link lists of one node
// two levels of one node never share storage (they are made, decoded or copied separately)
macro ownLists(v) = (forall i int :: {v.Connections[i]} 0 <= i < len(v.Connections) ==> allocated(v.Connections[i]) && len(v.Connections[i]) <= cap(v.Connections[i]) && arr(v.Connections[i]) >= 0) && (forall i, j int :: {v.Connections[i], v.Connections[j]} 0 <= i < len(v.Connections) && 0 <= j < len(v.Connections) && i != j && cap(v.Connections[i]) > 0 && cap(v.Connections[j]) > 0 ==> arr(v.Connections[i]) != arr(v.Connections[j]))
macro otherLevels(v, level) = forall l, k int :: {v.Connections[l][k]} 0 <= l < len(v.Connections) && l != level && 0 <= k < len(v.Connections[l]) ==> v.Connections[l][k] == old(v.Connections[l][k])
macro otherLens(v, level) = forall l int :: {v.Connections[l]} 0 <= l < len(v.Connections) && l != level ==> len(v.Connections[l]) == old(len(v.Connections[l]))

// the number of links a node may have on a level of the index
ufun maxLinks(Int) Int
// the links of a node that is not being changed
macro linked(v) = ownLists(v) && (forall l int :: {v.Connections[l]} 0 <= l < len(v.Connections) ==> len(v.Connections[l]) <= maxLinks(l))

// the nodes whose links were changed: what of them is stored is out of date, so they must not count as stored
ghost relinked (Array Int Bool)
// the list of levels of a node is only replaced on one that does not count as stored
macro relist() = (forall w *vertex :: {w.Connections} {w.Committed} !fresh(w) && w.Connections != old(w.Connections) ==> !w.Committed) && (forall w *vertex :: {w.Committed} !fresh(w) && w.Committed ==> old(w.Committed))
macro restore() = forall w *vertex :: {select(relinked, w)} {w.Committed} select(relinked, w) ==> !w.Committed
macro restoreBut(v) = forall w *vertex :: {select(relinked, w)} {w.Committed} select(relinked, w) && w != v ==> !w.Committed

func vertex.connectionsAtLevelNoLock(v, level) (r)
  requires [locked] locked(v.Mutex) >= 1048576
  requires 0 <= level < len(v.Connections)
  ensures [list P07] r == v.Connections[level]

func vertex.upgradeToLevelNoLock(v, level)
  requires [locked] locked(v.Mutex) >= 1048576
  requires ownLists(v) && 0 <= level < 2000000 && len(v.Connections) <= level + 1
  modifies v.Level, v.Connections
  update relinked := store(relinked, v, true)
  inv <s ~[][]uint64, i int> forall l int :: {s[l]} 0 <= l < i ==> s[l] == old(v.Connections[l])
  inv <s ~[][]uint64, i int> forall l int :: {s[l]} 0 <= l <= i ==> s[l] == old(v.Connections[l])
  inv <s ~[][]uint64, i int> forall l int :: {s[l]} i < l < len(s) ==> len(s[l]) == 0 && cap(s[l]) == 0 && arr(s[l]) >= 0 && allocated(s[l])
  inv <s ~[][]uint64, i int> forall l int :: {s[l]} i <= l < len(s) ==> len(s[l]) == 0 && cap(s[l]) == 0 && arr(s[l]) >= 0 && allocated(s[l])
  ensures [levels P07] v.Level == level && len(v.Connections) == level + 1
  ensures [keep P07] forall l int :: {v.Connections[l]} 0 <= l < old(len(v.Connections)) ==> v.Connections[l] == old(v.Connections[l])
  ensures [empty P07] forall l int :: {v.Connections[l]} old(len(v.Connections)) <= l <= level ==> len(v.Connections[l]) == 0
  ensures [own P07] ownLists(v)
  nopanic

func vertex.setConnectionsAtLevel(v, level, conns)
  requires 0 <= level < len(v.Connections) && ownLists(v) && allocated(conns)
  requires forall l int :: {v.Connections[l]} 0 <= l < len(v.Connections) && cap(conns) > 0 && cap(v.Connections[l]) > 0 ==> arr(conns) != arr(v.Connections[l])
  modifies v.Connections[*], v.Connections[level][*]
  update relinked := store(relinked, v, true)
  inv <s ~[]uint64, i int> forall k int :: {s[k]} 0 <= k < i ==> s[k] == old(conns[k])
  inv <s ~[]uint64, i int> forall k int :: {s[k]} 0 <= k <= i ==> s[k] == old(conns[k])
  inv <> forall k int :: {conns[k]} 0 <= k < len(conns) ==> conns[k] == old(conns[k])
  inv <> otherLevels(v, level) && otherLens(v, level)
  ensures [links P07] len(v.Connections[level]) == len(conns) && forall k int :: {v.Connections[level][k]} 0 <= k < len(conns) ==> v.Connections[level][k] == old(conns[k])
  ensures [others P07] otherLevels(v, level) && otherLens(v, level)
  ensures [own P07] ownLists(v)

func vertex.appendConnectionAtLevelNoLock(v, level, c, maxConns)
  opt keep=yes
  requires [locked] locked(v.Mutex) >= 1048576
  requires 0 <= level < len(v.Connections) && ownLists(v) && 0 < maxConns < 1000000 && len(v.Connections[level]) < 1000000
  modifies v.Connections[*], v.Connections[level][*]
  update relinked := store(relinked, v, true)
  ensures [count P07] len(v.Connections[level]) == old(len(v.Connections[level])) + 1
  ensures [added P07] v.Connections[level][old(len(v.Connections[level]))] == c
  ensures [kept P07] forall k int :: {v.Connections[level][k]} 0 <= k < old(len(v.Connections[level])) ==> v.Connections[level][k] == old(v.Connections[level][k])
  ensures [others P07] otherLevels(v, level) && otherLens(v, level)
  ensures [own P07] ownLists(v)

func vertex.resetConnectionsAtLevelNoLock(v, level)
  opt keep=yes
  requires [locked] locked(v.Mutex) >= 1048576
  requires 0 <= level < len(v.Connections) && ownLists(v)
  modifies v.Connections[*]
  update relinked := store(relinked, v, true)
  ensures [empty P07] len(v.Connections[level]) == 0
  ensures [others P07] otherLevels(v, level) && otherLens(v, level)
  ensures [own P07] ownLists(v)
  nopanic

func vertex.markAsMaintenance(v)
  modifies v.Maintenance
  ensures [mark P07] v.Maintenance
func vertex.unmarkAsMaintenance(v)
  modifies v.Maintenance
  ensures [unmark P07] !v.Maintenance

// ---- choosing neighbours
macro mini(q) = heap(q) && (forall a, b priorityqueue.ItemWithIndex :: {q.less(a,b)} q.less(a,b) <==> a.Dist < b.Dist)
func newPqMinWithIndexPool$1() (r)
  requires 0 <= defaultCap < 1000000000000
  ensures [kind P07] isType(r, "*priorityqueue.QueueWithIndex") && forall a, b priorityqueue.ItemWithIndex :: {unbox(r, "*priorityqueue.QueueWithIndex").less(a,b)} unbox(r, "*priorityqueue.QueueWithIndex").less(a,b) <==> a.Dist < b.Dist
func newPools$1() (r)
  requires 0 <= maxConnectionsLayerZero < 1000000000000
  ensures [kind P07] isType(r, "[]priorityqueue.ItemWithIndex") && len(unbox(r, "[]priorityqueue.ItemWithIndex")) == 0
func pqMinWithIndexPool.GetMin(p, capacity) (q)
  requires poolKind(p.pool) == 3 && 0 <= capacity < 1000000000000
  ensures [min P07] q != nil && mini(q) && distinctqi(q) && len(q.items) == 0 && fresh(q) && fresh(q.items)
func pqMinWithIndexPool.Put(p, q)
  requires poolKind(p.pool) == 3 && mini(q)

// the vector cache serves the vectors of the nodes (see P15)
extern hnsw.hnsw.multiVectorForID(ctx, ids) (vecs, errs)
  ensures len(vecs) == len(ids) && len(errs) == len(ids)
  ensures forall i int :: {vecs[i]} 0 <= i < len(ids) && errs[i] == nil ==> seq(vecs[i]) == nodeVec(ids[i])

// two chosen neighbours are at least as far from each other as from the node they are chosen for
macro apart(h, a, b) = comparable(h.distancerProvider, nodeVec(a.ID), nodeVec(b.ID)) ==> metric(h.distancerProvider, nodeVec(a.ID), nodeVec(b.ID)) >= a.Dist && metric(h.distancerProvider, nodeVec(a.ID), nodeVec(b.ID)) >= b.Dist
func hnsw.selectNeighborsHeuristic(h, input, max, deny) (err)
  opt keep=yes
  requires okIndex(h) && h.pools.pqHeuristic != nil && poolKind(h.pools.pqHeuristic.pool) == 3 && poolKind(h.pools.pqItemSlice) == 4
  requires input != nil && maxq(input) && allocated(input.items) && len(input.items) < 1000000000000 && max >= 0
  modifies input.items, input.items[*], h.tombstones[*]
  inv <> maxq(input) && allocated(input.items)
  inv <> old(distinctq(input)) ==> distinctq(input)
  inv <> arr(input.items) == old(arr(input.items)) || fresh(input.items)
  inv <q ~*priorityqueue.QueueWithIndex> old(distinctq(input)) ==> distinctqi(q)
  inv <q ~*priorityqueue.QueueWithIndex> mini(q) && fresh(q.items) && allocated(q.items)
  inv <> forall x priorityqueue.Item :: {cnt(input.items, len(input.items), x)} inq(input, x) ==> old(inq(input, x))
  inv <q ~*priorityqueue.QueueWithIndex> forall x priorityqueue.ItemWithIndex, y priorityqueue.Item :: {cnt(q.items, len(q.items), x), old(cnt(input.items, len(input.items), y))} inq(q, x) && x.ID == y.ID && x.Dist == y.Dist ==> old(inq(input, y))
  inv <q ~*priorityqueue.QueueWithIndex> forall x priorityqueue.ItemWithIndex, y priorityqueue.Item :: {cnt(q.items, len(q.items), x), cnt(input.items, len(input.items), y)} old(distinctq(input)) && inq(q, x) && inq(input, y) ==> x.ID != y.ID
  inv <a ~[]priorityqueue.ItemWithIndex> fresh(a) && allocated(a)
  inv <a ~[]priorityqueue.ItemWithIndex, q ~*priorityqueue.QueueWithIndex> arr(a) != arr(q.items)
  inv <a ~[]priorityqueue.ItemWithIndex> len(a) <= max
  inv <a ~[]priorityqueue.ItemWithIndex> forall k int, y priorityqueue.Item :: {a[k], old(cnt(input.items, len(input.items), y))} 0 <= k < len(a) && a[k].ID == y.ID && a[k].Dist == y.Dist ==> old(inq(input, y))
  inv <a ~[]priorityqueue.ItemWithIndex> forall k int :: {a[k]} 0 <= k < len(a) && deny != nil ==> !allows(deny, a[k].ID)
  inv <a ~[]priorityqueue.ItemWithIndex> forall k, m int :: {a[k], a[m]} old(distinctq(input)) && 0 <= k < m < len(a) ==> a[k].ID != a[m].ID
  inv <a ~[]priorityqueue.ItemWithIndex, q ~*priorityqueue.QueueWithIndex> forall k int, x priorityqueue.ItemWithIndex :: {a[k], cnt(q.items, len(q.items), x)} old(distinctq(input)) && 0 <= k < len(a) && inq(q, x) ==> a[k].ID != x.ID
  inv <a ~[]priorityqueue.ItemWithIndex, i int> forall k int, x priorityqueue.Item :: {a[k], cnt(input.items, len(input.items), x)} old(distinctq(input)) && i < k < len(a) && inq(input, x) ==> a[k].ID != x.ID
  inv <i int> len(input.items) == i + 1
  inv <> len(input.items) == 0
  inv <> deny != nil ==> forall x priorityqueue.Item :: {cnt(input.items, len(input.items), x)} inq(input, x) ==> !allows(deny, x.ID)
  inv <q ~*priorityqueue.QueueWithIndex, ids ~[]uint64, i uint64> forall x priorityqueue.ItemWithIndex :: {cnt(q.items, len(q.items), x)} inq(q, x) ==> 0 <= x.Index < i && ids[x.Index] == x.ID
  inv <q ~*priorityqueue.QueueWithIndex, ids ~[]uint64, i ~uint64> forall x priorityqueue.ItemWithIndex :: {cnt(q.items, len(q.items), x)} inq(q, x) ==> 0 <= x.Index < i && ids[x.Index] == x.ID
  inv <q ~*priorityqueue.QueueWithIndex, i uint64> i == len(q.items) && i + len(input.items) == old(len(input.items))
  inv <a ~[]priorityqueue.ItemWithIndex, v ~[][]float32> forall k int :: {a[k]} 0 <= k < len(a) ==> seq(v[a[k].Index]) == nodeVec(a[k].ID)
  inv <a ~[]priorityqueue.ItemWithIndex, q ~*priorityqueue.QueueWithIndex> forall k int, x priorityqueue.ItemWithIndex :: {a[k], cnt(q.items, len(q.items), x)} 0 <= k < len(a) && inq(q, x) ==> a[k].Dist <= x.Dist
  inv <a ~[]priorityqueue.ItemWithIndex> forall k, m int :: {a[k], a[m]} 0 <= k < len(a) && 0 <= m < len(a) && k != m ==> apart(h, a[k], a[m])
  inv <a ~[]priorityqueue.ItemWithIndex, x ~priorityqueue.ItemWithIndex> forall k int :: {a[k]} 0 <= k < len(a) ==> a[k].Dist <= x.Dist
  inv <a ~[]priorityqueue.ItemWithIndex, x ~priorityqueue.ItemWithIndex, i int> forall k int :: {a[k]} 0 <= k <= i && k < len(a) ==> apart(h, a[k], x)
  inv <a ~[]priorityqueue.ItemWithIndex, i int> forall k int, x priorityqueue.Item :: {a[k], cnt(input.items, len(input.items), x)} i < k < len(a) && inq(input, x) ==> apart(h, a[k], x)
  inv <> forall x, y priorityqueue.Item :: {cnt(input.items, len(input.items), x), cnt(input.items, len(input.items), y)} inq(input, x) && inq(input, y) && x.ID != y.ID ==> apart(h, x, y)
  inv <> forall x int :: {x in dom(h.tombstones)} old(x in dom(h.tombstones)) ==> x in dom(h.tombstones)
  ensures [grow P08] forall x int :: {x in dom(h.tombstones)} old(x in dom(h.tombstones)) ==> x in dom(h.tombstones)
  ensures [apart P07] err == nil && old(len(input.items)) >= max ==> forall x, y priorityqueue.Item :: {cnt(input.items, len(input.items), x), cnt(input.items, len(input.items), y)} inq(input, x) && inq(input, y) && x.ID != y.ID ==> apart(h, x, y)
  ensures [heap P07] err == nil ==> maxq(input)
  ensures [distinct P07] err == nil && old(distinctq(input)) ==> distinctq(input)
  ensures [subset P07] err == nil ==> forall x priorityqueue.Item :: {cnt(input.items, len(input.items), x)} inq(input, x) ==> old(inq(input, x))
  ensures [count P07] err == nil ==> len(input.items) <= max
  ensures [all P07] err == nil && old(len(input.items)) < max ==> len(input.items) == old(len(input.items)) && forall x priorityqueue.Item :: {cnt(input.items, len(input.items), x)} cnt(input.items, len(input.items), x) == old(cnt(input.items, len(input.items), x))
  ensures [denied P07] err == nil && old(len(input.items)) >= max && deny != nil ==> forall x priorityqueue.Item :: {cnt(input.items, len(input.items), x)} inq(input, x) ==> !allows(deny, x.ID)
  ensures [own P07] arr(input.items) == old(arr(input.items)) || fresh(input.items)

macro okBuild(h) = okIndex(h) && h.pools.pqHeuristic != nil && poolKind(h.pools.pqHeuristic.pool) == 3 && poolKind(h.pools.pqItemSlice) == 4 && maxLinks(0) == h.maximumConnectionsLayerZero && (forall l int :: {maxLinks(l)} l > 0 ==> maxLinks(l) == h.maximumConnections) && 0 < h.maximumConnections <= h.maximumConnectionsLayerZero

// ---- linking
extern hnsw.hnsw.vectorForID(ctx, id) (vec, err)
  ensures err == nil ==> seq(vec) == nodeVec(id)
func hnsw.distBetweenNodes(h, a, b) (r, ok, err)
  requires h.compressed.v == 0 && h.tombstones != nil
  modifies h.tombstones[*]
  ensures [value P07] err == nil && ok ==> r == metric(h.distancerProvider, nodeVec(a), nodeVec(b))
  ensures [grow P07 P08] forall x int :: {x in dom(h.tombstones)} old(x in dom(h.tombstones)) ==> x in dom(h.tombstones)

func newNeighborFinderConnector(graph, node, ep, vec, target, cur, deny) (n)
  ensures [start P07] fresh(n) && n.graph == graph && n.node == node && n.entryPointID == ep && n.nodeVec == vec && n.targetLevel == target && n.currentMaxLevel == cur && n.denyList == deny
func neighborFinderConnector.maximumConnections(n, level) (r)
  ensures [max P07] r == (if level == 0 then n.graph.maximumConnectionsLayerZero else n.graph.maximumConnections)
func neighborFinderConnector.skipNeighbor(n, v) (r)
  requires n.graph.tombstones != nil
  ensures [skip P07 P08] r <==> v == n.node || v == nil || v.Id in dom(n.graph.tombstones)
func neighborFinderConnector.tryEpCandidate(n, id) (ok, err)
  requires n.graph.compressed.v == 0
  modifies n.entryPointDist, n.entryPointID
  ensures [entry P07] ok && err == nil ==> n.entryPointID == id && n.entryPointDist == qdist(n.graph, seq(n.nodeVec), id)
  ensures [same P07] !ok ==> n.entryPointID == old(n.entryPointID) && n.entryPointDist == old(n.entryPointDist)

func neighborFinderConnector.connectNeighborAtLevel(n, id, level) (err)
  opt keep=yes
  requires okBuild(n.graph) && n.node != nil && 0 <= level < 2000000
  modifies any(vertex.Committed), any(vertex.Level), any(vertex.Connections), anyelem("[]uint64"), anyelem("uint64"), n.graph.tombstones[*], ghost(relinked)
  inv <> relist()
  ensures [relist P09] relist()
  requires [restore P09] restoreBut(n.node)
  inv <> restoreBut(n.node)
  inv <v ~*vertex> !v.Committed
  ensures [restore P09] restoreBut(n.node)
  inv <q ~*priorityqueue.Queue> maxq(q) && fresh(q.items) && allocated(q.items)
  inv <v ~*vertex> okNode(v, id)
  inv <v ~*vertex> ownLists(v)
  inv <v ~*vertex> linked(v)
  inv <v ~*vertex> level < len(v.Connections)
  inv <q ~*priorityqueue.Queue, i int> len(q.items) <= i + 2
  inv <q ~*priorityqueue.Queue, i int> len(q.items) + i <= 100000000000
  inv <v ~*vertex, q ~*priorityqueue.Queue> len(v.Connections[level]) + len(q.items) <= maxLinks(level)
  inv <> okBuild(n.graph)
  inv <> forall x int :: {x in dom(n.graph.tombstones)} old(x in dom(n.graph.tombstones)) ==> x in dom(n.graph.tombstones)
  ensures [grow P08] forall x int :: {x in dom(n.graph.tombstones)} old(x in dom(n.graph.tombstones)) ==> x in dom(n.graph.tombstones)
  ensures [index P07] okBuild(n.graph)
  ensures [node P07] n.node.Level == old(n.node.Level) && n.node.Connections == old(n.node.Connections) && n.node.Id == old(n.node.Id)
  // different nodes never share a link list: every list is made, decoded or copied for one node
  assumes [separate] forall l int :: {n.node.Connections[l]} 0 <= l < len(n.node.Connections) ==> n.node.Connections[l] == old(n.node.Connections[l])
  assumes [separate] forall l, k int :: {n.node.Connections[l][k]} 0 <= l < len(n.node.Connections) && 0 <= k < len(n.node.Connections[l]) ==> n.node.Connections[l][k] == old(n.node.Connections[l][k])

extern helpers.AllowList.DeepCopy(a) (r)
  modifies ghost(allowSet)
  ensures r != nil && fresh(r) && allowSet == old(store(allowSet, r, select(allowSet, a)))
extern helpers.AllowList.Insert(a, ids)
  modifies ghost(allowSet)
  ensures len(ids) == 1 ==> allowSet == old(store(allowSet, a, store(select(allowSet, a), ids[0], true)))
extern helpers.NewAllowList(ids) (r)
  modifies ghost(allowSet)
  ensures r != nil && fresh(r)
  ensures len(ids) == 0 ==> allowSet == old(store(allowSet, r, emptyset("(Array Int Bool)")))
  ensures forall o int :: {select(allowSet, o)} o != r ==> select(allowSet, o) == old(select(allowSet, o))
  ensures forall k int :: {ids[k]} 0 <= k < len(ids) ==> allows(r, ids[k])
  ensures forall x int :: {select(select(allowSet, r), x)} allows(r, x) ==> exists k int :: {at(k)} at(k) && 0 <= k < len(ids) && ids[k] == x
ignoretype context.CancelFunc
extern context.WithTimeout(c, d) (ctx, cancel)
  ensures ctx != nil
extern context.Context.Err(c) (err)
func neighborFinderConnector.pickEntrypoint(n) (err)
  requires n.graph.compressed.v == 0
  modifies n.entryPointDist, n.entryPointID, ghost(allowSet)
  presumes [list] allocated(n.denyList)
  inv <> select(allowSet, n.denyList) == old(select(allowSet, n.denyList))
  inv <d ~helpers.AllowList> d != n.denyList
  ensures [deny P07] select(allowSet, n.denyList) == old(select(allowSet, n.denyList))
  ensures [entry P07] err == nil ==> n.entryPointDist == qdist(n.graph, seq(n.nodeVec), n.entryPointID)

func neighborFinderConnector.doAtLevel(n, level) (err)
  opt keep=yes
  requires okBuild(n.graph) && n.node != nil && n.denyList != nil && 0 <= level < len(n.node.Connections) && level < 2000000 && linked(n.node) && n.graph.efConstruction >= 0 && n.graph.efConstruction < 1000000000
  modifies n.entryPointDist, n.entryPointID, any(vertex.Committed), any(vertex.Level), any(vertex.Connections), anyelem("[]uint64"), anyelem("uint64"), n.graph.tombstones[*], n.graph.pools.visitedLists.listSets, anyelem("visited.ListSet"), anyelem("uint8"), ghost(allowSet), ghost(relinked)
  inv <> relist()
  ensures [relist P09] relist()
  requires [restore P09] restoreBut(n.node)
  inv <> restoreBut(n.node)
  ensures [restore P09] restoreBut(n.node)
  inv <q ~*priorityqueue.Queue> maxq(q) && distinctq(q)
  inv <q ~*priorityqueue.Queue> fresh(q.items) && allocated(q.items)
  inv <q ~*priorityqueue.Queue, a []uint64> len(a) + len(q.items) <= n.graph.maximumConnections
  inv <a []uint64> fresh(a) && allocated(a)
  inv <a []uint64> forall i, j int :: {a[i], a[j]} 0 <= i < j < len(a) ==> a[i] != a[j]
  inv <q ~*priorityqueue.Queue, a []uint64> forall x priorityqueue.Item, i int :: {cnt(q.items, len(q.items), x), a[i]} inq(q, x) && 0 <= i < len(a) ==> x.ID != a[i]
  inv <> okBuild(n.graph) && linked(n.node)
  inv <> n.node.Level == old(n.node.Level) && len(n.node.Connections) == old(len(n.node.Connections)) && n.node.Id == old(n.node.Id)
  inv <> len(n.node.Connections[level]) <= n.graph.maximumConnections
  inv <> distinctIds(n.node.Connections[level])
  inv <> forall x int :: {x in dom(n.graph.tombstones)} old(x in dom(n.graph.tombstones)) ==> x in dom(n.graph.tombstones)
  ensures [grow P08] forall x int :: {x in dom(n.graph.tombstones)} old(x in dom(n.graph.tombstones)) ==> x in dom(n.graph.tombstones)
  ensures [index P07] okBuild(n.graph)
  ensures [node P07] n.node.Level == old(n.node.Level) && len(n.node.Connections) == old(len(n.node.Connections)) && n.node.Id == old(n.node.Id)
  ensures [links P07] err == nil ==> linked(n.node)
  ensures [count P07] err == nil ==> len(n.node.Connections[level]) <= n.graph.maximumConnections
  ensures [distinct P07] err == nil ==> distinctIds(n.node.Connections[level])
// the commit logger only writes; it keeps no reference to its arguments
extern hnsw.CommitLogger.ReplaceLinksAtLevel(l, id, level, targets) (err)

macro okJob(n) = okBuild(n.graph) && n.node != nil && n.denyList != nil && linked(n.node) && n.graph.efConstruction >= 0 && n.graph.efConstruction < 1000000000
func neighborFinderConnector.Do(n) (err)
  requires okJob(n) && okNode(n.node, n.node.Id) && n.targetLevel < len(n.node.Connections) && n.targetLevel < 2000000
  modifies n.entryPointDist, n.entryPointID, any(vertex.Committed), any(vertex.Level), any(vertex.Connections), anyelem("[]uint64"), anyelem("uint64"), n.graph.tombstones[*], n.graph.pools.visitedLists.listSets, anyelem("visited.ListSet"), anyelem("uint8"), ghost(allowSet), ghost(relinked)
  inv <> relist()
  ensures [relist P09] relist()
  requires [restore P09] restoreBut(n.node)
  inv <> restoreBut(n.node)
  ensures [restore P09] restoreBut(n.node)
  ensures [stored P09] err == nil ==> restore()
  inv <> okJob(n)
  inv <> n.node.Level == old(n.node.Level) && len(n.node.Connections) == old(len(n.node.Connections)) && n.node.Id == old(n.node.Id)
  inv <> forall x int :: {x in dom(n.graph.tombstones)} old(x in dom(n.graph.tombstones)) ==> x in dom(n.graph.tombstones)
  ensures [grow P08] forall x int :: {x in dom(n.graph.tombstones)} old(x in dom(n.graph.tombstones)) ==> x in dom(n.graph.tombstones)
  ensures [index P07] okBuild(n.graph)
  ensures [node P07] n.node.Level == old(n.node.Level) && len(n.node.Connections) == old(len(n.node.Connections)) && n.node.Id == old(n.node.Id)
  ensures [links P07] err == nil ==> linked(n.node)

func hnsw.findAndConnectNeighbors(h, node, ep, vec, target, cur, deny) (err)
  requires okBuild(h) && node != nil && deny != nil && linked(node) && h.efConstruction >= 0 && h.efConstruction < 1000000000 && okNode(node, node.Id) && target < len(node.Connections) && target < 2000000
  modifies any(vertex.Committed), any(vertex.Level), any(vertex.Connections), anyelem("[]uint64"), anyelem("uint64"), h.tombstones[*], h.pools.visitedLists.listSets, anyelem("visited.ListSet"), anyelem("uint8"), ghost(allowSet), ghost(relinked)
  inv <> relist()
  ensures [relist P09] relist()
  requires [restore P09] restoreBut(node)
  ensures [restore P09] restoreBut(node)
  ensures [stored P09] err == nil ==> restore()
  inv <> forall x int :: {x in dom(h.tombstones)} old(x in dom(h.tombstones)) ==> x in dom(h.tombstones)
  ensures [grow P08] forall x int :: {x in dom(h.tombstones)} old(x in dom(h.tombstones)) ==> x in dom(h.tombstones)
  ensures [index P07] okBuild(h)
  ensures [node P07] node.Level == old(node.Level) && len(node.Connections) == old(len(node.Connections)) && node.Id == old(node.Id)
  ensures [links P07] err == nil ==> linked(node)

func hnsw.findBestEntrypointForNode(h, cur, target, ep, vec) (id, err)
  requires okBuild(h) && target >= 0
  modifies h.tombstones[*], h.pools.visitedLists.listSets, anyelem("visited.ListSet"), anyelem("uint8")
  inv <> okBuild(h)
  inv <> forall x int :: {x in dom(h.tombstones)} old(x in dom(h.tombstones)) ==> x in dom(h.tombstones)
  ensures [grow P08] forall x int :: {x in dom(h.tombstones)} old(x in dom(h.tombstones)) ==> x in dom(h.tombstones)
  ensures [index P07] okBuild(h)

func hnsw.insertInitialElement(h, node, vec) (err)
  opt exclusive=node
  opt keep=yes
  requires okBuild(h) && node != nil && seq(vec) == nodeVec(node.Id)
  modifies h.entryPointID, h.currentMaximumLayer, node.Connections, node.Vector, node.Level
  ensures [entry P07] err == nil ==> h.entryPointID == node.Id && h.currentMaximumLayer == 0 && node.Level == 0
  ensures [links P07] err == nil ==> linked(node) && okNode(node, node.Id)

extern hnsw.CommitLogger.AddNode(l, node) (err)
axiom forall x float64 :: {m_Log(x)} 0 < x <= 1 ==> m_Log(x) <= 0
axiom forall x float64 :: {m_Floor(x)} m_Floor(x) <= x && x < m_Floor(x) + 1 && (x >= 0 ==> m_Floor(x) >= 0)
// the level drawn for a node: not negative and not absurdly high (a random number above 10^-100 and at least 2 links per node)
extern hnsw.hnsw.randFunc() (r)
  ensures 0 < r < 1 && m_Log(r) >= 0 - 300
func hnsw.insert(h, node, vec) (err)
  opt also=P05
  opt exclusive=node
  opt keep=yes
  requires 0 <= h.levelNormalizer <= 10
  requires okBuild(h) && node != nil && seq(vec) == nodeVec(node.Id) && h.efConstruction >= 0 && h.efConstruction < 1000000000
  modifies h.entryPointID, h.currentMaximumLayer, any(vertex.Maintenance), any(vertex.Vector), any(vertex.Committed), any(vertex.Level), any(vertex.Connections), anyelem("[]uint64"), anyelem("uint64"), h.tombstones[*], h.pools.visitedLists.listSets, anyelem("visited.ListSet"), anyelem("uint8"), ghost(allowSet), ghost(relinked)
  requires [restore P09] restore()
  inv <> restore()
  ensures [stored P09] err == nil ==> restore()
  inv <i int> forall l int :: {node.Connections[l]} i < l < len(node.Connections) ==> len(node.Connections[l]) == 0 && len(node.Connections[l]) <= cap(node.Connections[l]) && allocated(node.Connections[l]) && arr(node.Connections[l]) >= 0
  inv <i int> forall l, m int :: {node.Connections[l], node.Connections[m]} i < l < len(node.Connections) && i < m < len(node.Connections) && l != m ==> arr(node.Connections[l]) != arr(node.Connections[m])
  inv <i int> forall l int :: {node.Connections[l]} 0 <= l < i && l < len(node.Connections) ==> len(node.Connections[l]) == 0 && len(node.Connections[l]) <= cap(node.Connections[l]) && allocated(node.Connections[l]) && arr(node.Connections[l]) >= 0
  inv <i int> forall l, m int :: {node.Connections[l], node.Connections[m]} 0 <= l < i && 0 <= m < i && l < len(node.Connections) && m < len(node.Connections) && l != m ==> arr(node.Connections[l]) != arr(node.Connections[m])
  inv <> forall x int :: {x in dom(h.tombstones)} old(x in dom(h.tombstones)) ==> x in dom(h.tombstones)
  ensures [grow P08] forall x int :: {x in dom(h.tombstones)} old(x in dom(h.tombstones)) ==> x in dom(h.tombstones)
  ensures [index P07] okBuild(h)
  ensures [links P07] err == nil ==> linked(node) && okNode(node, node.Id)
  ensures [entry P07] err == nil ==> (h.entryPointID == node.Id && h.currentMaximumLayer == node.Level) || (h.entryPointID == old(h.entryPointID) && h.currentMaximumLayer == old(h.currentMaximumLayer) && node.Level <= h.currentMaximumLayer)

func hnsw.Add(h, id, vector) (err)
  requires okBuild(h) && h.efConstruction >= 0 && h.efConstruction < 1000000000 && 0 <= h.levelNormalizer <= 10
  // an id is used for one vector only (see P10)
  presumes [id] nodeVec(id) == effq(h, seq(vector))
  modifies h.entryPointID, h.currentMaximumLayer, any(vertex.Maintenance), any(vertex.Vector), any(vertex.Committed), any(vertex.Level), any(vertex.Connections), anyelem("[]uint64"), anyelem("uint64"), h.tombstones[*], h.pools.visitedLists.listSets, anyelem("visited.ListSet"), anyelem("uint8"), ghost(allowSet), ghost(relinked)
  presumes [start] relinked == emptyset("(Array Int Bool)")
  ensures [stored P09] err == nil ==> restore()
  inv <> forall x int :: {x in dom(h.tombstones)} old(x in dom(h.tombstones)) ==> x in dom(h.tombstones)
  ensures [grow P08] forall x int :: {x in dom(h.tombstones)} old(x in dom(h.tombstones)) ==> x in dom(h.tombstones)
  ensures [index P07] okBuild(h)
  ensures [empty P07] len(vector) == 0 ==> err != nil
  ensures [entry P07] err == nil ==> h.entryPointID == id || (h.entryPointID == old(h.entryPointID) && h.currentMaximumLayer == old(h.currentMaximumLayer))
