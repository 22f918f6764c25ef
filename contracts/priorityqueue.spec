package priorityqueue

purefield priorityqueue.Queue.less
purefield priorityqueue.QueueWithIndex.less

// under(a, i): slot i lies in the subtree rooted at slot a of the implicit binary tree.
ufun under(Int, Int) Bool
axiom [private] forall a, i int :: {under(a,i)} under(a,i) <==> (0 <= a && (a == i || (a < i && under(a, (i-1)/2))))
// step(p, c): c is a child of p.  node(i) is always true; it only names slots for the prover.
ufun step(Int, Int) Bool
axiom forall p, c int :: {step(p,c)} step(p,c) <==> (c == 2*p+1 || c == 2*p+2)
ufun node(Int) Bool
axiom forall i int :: {node(i)} node(i) && step(i, 2*i+1) && step(i, 2*i+2)
lemma underLe : forall a, i int :: {under(a,i)} under(a,i) ==> 0 <= a && a <= i
lemma underRoot by i : forall i int :: {under(0,i)} 0 <= i ==> under(0,i)
lemma underEdge : forall p, c int :: {step(p,c)} 0 <= p && step(p,c) ==> under(p,c)
lemma underParent : forall a, p, c int :: {under(a,c), step(p,c)} 0 <= p && step(p,c) && under(a,c) ==> a == c || under(a,p)
lemma underChild0 by i : forall a, i int :: under(a,i) && a != i ==> under(2*a+1, i) || under(2*a+2, i)
lemma underChild : forall a, i int :: {under(a,i), node(a)} under(a,i) && a != i ==> under(2*a+1, i) || under(2*a+2, i)
lemma underTrans by i : forall a, b, i int :: {under(a,b), under(b,i)} under(a,b) && under(b,i) ==> under(a,i)

macro roots(q) = q.less != nil && (forall i int :: {q.items[i]} 0 <= i && i < len(q.items) ==> under(0,i))
// every slot is ordered after all its ancestors
opaque heap(q) reads q.less, q.items, content(q.items) = roots(q) && (forall a, i int :: {under(a,i)} 0 <= a && a < i && i < len(q.items) && under(a,i) ==> !q.less(q.items[i], q.items[a]))
// ... except for ancestor h (sift-down position)
macro heapBelow(q, h) = roots(q) && node(h) && (forall a, i int :: {under(a,i)} 0 <= a && a < i && i < len(q.items) && a != h && under(a,i) ==> !q.less(q.items[i], q.items[a]))
// ... except for descendant h (sift-up position)
macro heapAbove(q, h) = roots(q) && (h > 0 ==> step((h-1)/2, h)) && (forall a, i int :: {under(a,i)} 0 <= a && a < i && i < len(q.items) && i != h && under(a,i) ==> !q.less(q.items[i], q.items[a]))

macro inq(q, x) = cnt(q.items, len(q.items), x) >= 1
// no two items carry the same id
opaque distinctq(q) reads q.items, content(q.items) = (forall x, y Item :: {cnt(q.items, len(q.items), x), cnt(q.items, len(q.items), y)} inq(q, x) && inq(q, y) && x.ID == y.ID ==> x == y) && (forall x Item :: {cnt(q.items, len(q.items), x)} cnt(q.items, len(q.items), x) <= 1)
opaque distinctqi(q) reads q.items, content(q.items) = (forall x, y ItemWithIndex :: {cnt(q.items, len(q.items), x), cnt(q.items, len(q.items), y)} inq(q, x) && inq(q, y) && x.ID == y.ID ==> x == y) && (forall x ItemWithIndex :: {cnt(q.items, len(q.items), x)} cnt(q.items, len(q.items), x) <= 1)

func NewMin(capacity) (q)
  requires 0 <= capacity < 1000000000000
  ensures [empty P01] len(q.items) == 0
  ensures [order P01] forall a, b Item :: {q.less(a,b)} q.less(a,b) <==> a.Dist < b.Dist
  ensures [fresh P01] fresh(q) && fresh(q.items)
  ensures [heap P01] heap(q)
  ensures [distinct P01] distinctq(q)
  nopanic

func NewMax(capacity) (q)
  requires 0 <= capacity < 1000000000000
  ensures [empty P01] len(q.items) == 0
  ensures [order P01] forall a, b Item :: {q.less(a,b)} q.less(a,b) <==> a.Dist > b.Dist
  ensures [fresh P01] fresh(q) && fresh(q.items)
  ensures [heap P01] heap(q)
  ensures [distinct P01] distinctq(q)
  nopanic

func Queue.Len(q) (n)
  ensures [len P01] n == len(q.items)
  nopanic

func Queue.Cap(q) (n)
  ensures [cap P01] n == cap(q.items)
  nopanic

func Queue.Top(q) (r)
  requires heap(q) && len(q.items) > 0
  ensures [member P01] cnt(q.items, len(q.items), r) >= 1
  ensures [top P01] r == q.items[0]
  ensures [least P01] forall k int :: {q.items[k]} 0 <= k < len(q.items) ==> !q.less(q.items[k], r)
  nopanic

func Queue.Reset(q)
  modifies q.items
  ensures [empty P01] len(q.items) == 0
  ensures [same P01] arr(q.items) == old(arr(q.items)) && cap(q.items) == old(cap(q.items))
  ensures [heap P01] q.less != nil ==> heap(q)
  ensures [distinct P01] distinctq(q)

func Queue.ResetCap(q, capacity)
  requires 0 <= capacity < 1000000000000
  modifies q.items
  ensures [empty P01] len(q.items) == 0
  ensures [own P01] fresh(q.items)
  ensures [heap P01] q.less != nil ==> heap(q)
  ensures [distinct P01] distinctq(q)

func Queue.swap(q, i, j)
  requires 0 <= i < len(q.items) && 0 <= j < len(q.items)
  modifies q.items[*]
  ensures [swap P01] q.items[i] == old(q.items[j]) && q.items[j] == old(q.items[i])
  ensures [rest P01] forall k int :: {q.items[k]} 0 <= k < len(q.items) && k != i && k != j ==> q.items[k] == old(q.items[k])
  ensures [bag P01] forall x Item :: {cnt(q.items, len(q.items), x)} cnt(q.items, len(q.items), x) == old(cnt(q.items, len(q.items), x))
  nopanic

func Queue.heapify(q, i)
  requires 0 <= i && i <= len(q.items) && heapBelow(q, i)
  modifies q.items[*]
  inv <c int> heapBelow(q, c)
  inv <c int> 0 <= c <= len(q.items)
  inv <> forall x Item :: {cnt(q.items, len(q.items), x)} cnt(q.items, len(q.items), x) == old(cnt(q.items, len(q.items), x))
  ensures [heap P01] heap(q)
  ensures [bag P01] forall x Item :: {cnt(q.items, len(q.items), x)} cnt(q.items, len(q.items), x) == old(cnt(q.items, len(q.items), x))
  nopanic

func Queue.Insert(q, id, dist)
  requires heap(q)
  presumes [addressable] len(q.items) < 1000000000000
  modifies q.items, q.items[*]
  inv <c int> heapAbove(q, c)
  inv <c int> forall x Item :: {cnt(q.items, len(q.items), x)} cnt(q.items, len(q.items), x) == old(cnt(q.items, len(q.items), x)) + (if x.ID == id && x.Dist == dist then 1 else 0)
  ensures [len P01] len(q.items) == old(len(q.items)) + 1
  ensures [heap P01] heap(q)
  ensures [bag P01] forall x Item :: {cnt(q.items, len(q.items), x)} cnt(q.items, len(q.items), x) == old(cnt(q.items, len(q.items), x)) + (if x.ID == id && x.Dist == dist then 1 else 0)
  ensures [order P01] q.less == old(q.less)
  ensures [own P01] arr(q.items) == old(arr(q.items)) || fresh(q.items)
  ensures [distinct P01] old(distinctq(q)) && (forall x Item :: {old(cnt(q.items, len(q.items), x))} old(inq(q, x)) ==> x.ID != id) ==> distinctq(q)
  nopanic

func Queue.Pop(q) (r)
  requires heap(q) && len(q.items) > 0
  modifies q.items, q.items[*]
  ensures [top P01] r == old(q.items[0])
  ensures [least P01] forall k int :: {old(q.items[k])} 0 <= k < old(len(q.items)) ==> !q.less(old(q.items[k]), r)
  ensures [len P01] len(q.items) == old(len(q.items)) - 1
  ensures [heap P01] heap(q)
  ensures [bag P01] forall x Item :: {cnt(q.items, len(q.items), x)} cnt(q.items, len(q.items), x) == old(cnt(q.items, len(q.items), x)) - (if x == r then 1 else 0)
  ensures [own P01] arr(q.items) == old(arr(q.items))
  ensures [member P01] old(cnt(q.items, len(q.items), r)) >= 1
  ensures [next P01] forall x Item :: {cnt(q.items, len(q.items), x)} inq(q, x) ==> !q.less(x, r)
  ensures [distinct P01] old(distinctq(q)) ==> distinctq(q) && forall x Item :: {cnt(q.items, len(q.items), x)} inq(q, x) ==> x.ID != r.ID
  nopanic

func NewMinWithIndex(capacity) (q)
  requires 0 <= capacity < 1000000000000
  ensures [empty P01] len(q.items) == 0
  ensures [order P01] forall a, b ItemWithIndex :: {q.less(a,b)} q.less(a,b) <==> a.Dist < b.Dist
  ensures [fresh P01] fresh(q) && fresh(q.items)
  ensures [heap P01] heap(q)
  ensures [distinct P01] distinctqi(q)
  nopanic

func NewMaxWithIndex(capacity) (q)
  requires 0 <= capacity < 1000000000000
  ensures [empty P01] len(q.items) == 0
  ensures [order P01] forall a, b ItemWithIndex :: {q.less(a,b)} q.less(a,b) <==> a.Dist > b.Dist
  ensures [fresh P01] fresh(q) && fresh(q.items)
  ensures [heap P01] heap(q)
  ensures [distinct P01] distinctqi(q)
  nopanic

func QueueWithIndex.Len(q) (n)
  ensures [len P01] n == len(q.items)
  nopanic

func QueueWithIndex.Cap(q) (n)
  ensures [cap P01] n == cap(q.items)
  nopanic

func QueueWithIndex.Top(q) (r)
  requires heap(q) && len(q.items) > 0
  ensures [member P01] cnt(q.items, len(q.items), r) >= 1
  ensures [top P01] r == q.items[0]
  ensures [least P01] forall k int :: {q.items[k]} 0 <= k < len(q.items) ==> !q.less(q.items[k], r)
  nopanic

func QueueWithIndex.Reset(q)
  modifies q.items
  ensures [empty P01] len(q.items) == 0
  ensures [same P01] arr(q.items) == old(arr(q.items)) && cap(q.items) == old(cap(q.items))
  ensures [heap P01] q.less != nil ==> heap(q)
  ensures [distinct P01] distinctqi(q)

func QueueWithIndex.ResetCap(q, capacity)
  requires 0 <= capacity < 1000000000000
  modifies q.items
  ensures [empty P01] len(q.items) == 0
  ensures [own P01] fresh(q.items)
  ensures [heap P01] q.less != nil ==> heap(q)
  ensures [distinct P01] distinctqi(q)

func QueueWithIndex.swap(q, i, j)
  requires 0 <= i < len(q.items) && 0 <= j < len(q.items)
  modifies q.items[*]
  ensures [swap P01] q.items[i] == old(q.items[j]) && q.items[j] == old(q.items[i])
  ensures [rest P01] forall k int :: {q.items[k]} 0 <= k < len(q.items) && k != i && k != j ==> q.items[k] == old(q.items[k])
  ensures [bag P01] forall x ItemWithIndex :: {cnt(q.items, len(q.items), x)} cnt(q.items, len(q.items), x) == old(cnt(q.items, len(q.items), x))
  nopanic

func QueueWithIndex.heapify(q, i)
  requires 0 <= i && i <= len(q.items) && heapBelow(q, i)
  modifies q.items[*]
  inv <c int> heapBelow(q, c)
  inv <c int> 0 <= c <= len(q.items)
  inv <> forall x ItemWithIndex :: {cnt(q.items, len(q.items), x)} cnt(q.items, len(q.items), x) == old(cnt(q.items, len(q.items), x))
  ensures [heap P01] heap(q)
  ensures [bag P01] forall x ItemWithIndex :: {cnt(q.items, len(q.items), x)} cnt(q.items, len(q.items), x) == old(cnt(q.items, len(q.items), x))
  nopanic

func QueueWithIndex.Insert(q, id, index, dist)
  requires heap(q)
  presumes [addressable] len(q.items) < 1000000000000
  modifies q.items, q.items[*]
  inv <c int> heapAbove(q, c)
  inv <c int> forall x ItemWithIndex :: {cnt(q.items, len(q.items), x)} cnt(q.items, len(q.items), x) == old(cnt(q.items, len(q.items), x)) + (if x.ID == id && x.Index == index && x.Dist == dist then 1 else 0)
  ensures [len P01] len(q.items) == old(len(q.items)) + 1
  ensures [heap P01] heap(q)
  ensures [bag P01] forall x ItemWithIndex :: {cnt(q.items, len(q.items), x)} cnt(q.items, len(q.items), x) == old(cnt(q.items, len(q.items), x)) + (if x.ID == id && x.Index == index && x.Dist == dist then 1 else 0)
  ensures [order P01] q.less == old(q.less)
  ensures [own P01] arr(q.items) == old(arr(q.items)) || fresh(q.items)
  ensures [distinct P01] old(distinctqi(q)) && (forall x ItemWithIndex :: {old(cnt(q.items, len(q.items), x))} old(inq(q, x)) ==> x.ID != id) ==> distinctqi(q)
  nopanic

func QueueWithIndex.Pop(q) (r)
  requires heap(q) && len(q.items) > 0
  modifies q.items, q.items[*]
  ensures [top P01] r == old(q.items[0])
  ensures [least P01] forall k int :: {old(q.items[k])} 0 <= k < old(len(q.items)) ==> !q.less(old(q.items[k]), r)
  ensures [len P01] len(q.items) == old(len(q.items)) - 1
  ensures [heap P01] heap(q)
  ensures [bag P01] forall x ItemWithIndex :: {cnt(q.items, len(q.items), x)} cnt(q.items, len(q.items), x) == old(cnt(q.items, len(q.items), x)) - (if x == r then 1 else 0)
  ensures [own P01] arr(q.items) == old(arr(q.items))
  ensures [member P01] old(cnt(q.items, len(q.items), r)) >= 1
  ensures [next P01] forall x ItemWithIndex :: {cnt(q.items, len(q.items), x)} inq(q, x) ==> !q.less(x, r)
  ensures [distinct P01] old(distinctqi(q)) ==> distinctqi(q) && forall x ItemWithIndex :: {cnt(q.items, len(q.items), x)} inq(q, x) ==> x.ID != r.ID
  nopanic
