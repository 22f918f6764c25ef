package visited

// a list is well formed when its marker is alive and no slot is ahead of it
opaque okList(s) reads s, content(s) = len(s) >= 1 && s[0] >= 1 && (forall i int :: {s[i]} 0 <= i < len(s) ==> s[i] <= s[0])
// the abstract set: id n is a member
opaque has(s, n) reads s, content(s), n = 0 <= n && n < len(s)-1 && s[n+1] == s[0]

func NewList(size) (r)
  requires 0 <= size < 1000000000000
  ensures [wf P02] okList(r.set)
  ensures [len P02] len(r.set) == size + 1
  ensures [empty P02] forall n int :: {r.set[n+1]} !has(r.set, n)
  ensures [fresh P02] fresh(r.set)
  nopanic

func ListSet.Len(l) (n)
  ensures [len P02] n == len(l.set) - 1
  nopanic

func growth(oldsize, size) (r)
  requires 1 <= oldsize < 1000000000000 && 1 <= size < 1000000000000
  inv <n int> n <= 2*oldsize + 2*size + 4096
  ensures [big P02] r >= size && r >= oldsize && r <= 2*oldsize + 2*size + 4096
  nopanic

func ListSet.Visit(l, node)
  requires okList(l.set) && len(l.set) < 1000000000000
  presumes [smallid] node < 100000000000
  modifies l.set, l.set[*]
  inv <i int, s ~[]uint8> fresh(s) && (forall k int :: {s[k]} 0 <= k < len(s) ==> s[k] == (if k <= i then old(l.set[k]) else 0))
  inv <i int, s ~[]uint8> fresh(s) && (forall k int :: {s[k]} 0 <= k < len(s) ==> s[k] == (if k < i then old(l.set[k]) else 0))
  ensures [wf P02] okList(l.set)
  ensures [visited P02] has(l.set, node)
  ensures [others P02] forall n int :: {l.set[n+1]} {has(l.set, n)} n != node ==> (has(l.set, n) <==> old(has(l.set, n)))
  ensures [own P02] arr(l.set) == old(arr(l.set)) || fresh(l.set)
  ensures [bound P02] len(l.set) == old(len(l.set)) || len(l.set) <= 4*node + 8192
  ensures [small P02] len(l.set) < 1000000000000
  nopanic

func ListSet.Visited(l, node) (r)
  requires okList(l.set)
  presumes [smallid] node < 100000000000
  ensures [exact P02] r <==> has(l.set, node)
  nopanic

func ListSet.Reset(l)
  requires okList(l.set)
  modifies l.set[*]
  inv <i int> forall k int :: {l.set[k]} 0 <= k < i ==> l.set[k] == 0
  inv <i int> forall k int :: {l.set[k]} 1 <= k < i ==> l.set[k] == 0
  inv <i int> forall k int :: {l.set[k]} i < k < len(l.set) ==> l.set[k] == 0
  ensures [wf P02] okList(l.set)
  ensures [empty P02] forall n int :: {l.set[n+1]} {has(l.set, n)} !has(l.set, n)
  ensures [len P02] len(l.set) == old(len(l.set))
  nopanic

// (the lists of a pool are reachable only through it: Borrow takes the list it hands out away from the pool)
macro distinctPool(p) = forall i, j int :: {p.listSets[i], p.listSets[j]} 0 <= i < j < len(p.listSets) ==> arr(p.listSets[i].set) != arr(p.listSets[j].set)
opaque okPool(p) owns p = distinctPool(p) && p.listSetSize >= 0 && p.listSetSize < 10000000000 && (forall i int :: {p.listSets[i]} 0 <= i < len(p.listSets) ==> len(p.listSets[i].set) < 1000000000000 && okList(p.listSets[i].set) && (forall n int :: {p.listSets[i].set[n+1]} !has(p.listSets[i].set, n)))

func NewPool(size, listSetSize) (p)
  requires 0 <= size < 1000000 && 0 <= listSetSize < 10000000000
  inv <i int, q ~*visited.Pool> 0 <= i <= size && len(q.listSets) == size && q.listSetSize == listSetSize
  inv <i int, q ~*visited.Pool> forall k int :: {q.listSets[k]} 0 <= k < i ==> allocated(q.listSets[k].set) && arr(q.listSets[k].set) > 0
  inv <i int, q ~*visited.Pool> forall k int :: {q.listSets[k]} 0 <= k < i ==> len(q.listSets[k].set) < 1000000000000 && okList(q.listSets[k].set) && (forall n int :: {q.listSets[k].set[n+1]} !has(q.listSets[k].set, n))
  inv <i int, q ~*visited.Pool> forall k, m int :: {q.listSets[k], q.listSets[m]} 0 <= k < m < i ==> arr(q.listSets[k].set) != arr(q.listSets[m].set)
  ensures [made P02] p != nil && fresh(p)
  ensures [ok P02] okPool(p)
  ensures [distinct P02] distinctPool(p)

func Pool.Borrow(p) (l)
  requires okPool(p)
  modifies p.listSets, p.listSets[*]
  ensures [wf P02] okList(l.set)
  ensures [empty P02] forall n int :: {l.set[n+1]} {has(l.set, n)} !has(l.set, n)
  ensures [exclusive P02] forall i int :: {p.listSets[i]} 0 <= i < len(p.listSets) ==> arr(p.listSets[i].set) != arr(l.set)
  ensures [ok P02] okPool(p)
  ensures [bound P02] len(l.set) < 1000000000000
  nopanic

func Pool.Return(p, l)
  requires okPool(p) && okList(l.set) && len(l.set) < 1000000000000
  presumes [borrowed] forall i int :: {p.listSets[i]} 0 <= i < len(p.listSets) ==> arr(p.listSets[i].set) != arr(l.set)
  modifies p.listSets, p.listSets[*], l.set[*]
  ensures [ok P02] okPool(p)
  nopanic

// a pool's lists are touched only by the holder of its lock
guarded visited.Pool.listSets by Mutex
