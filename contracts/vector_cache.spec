package hnsw

// ---- vector cache: what it serves is what the vector source serves
ufun rawVec(Int) Int
macro sourced(s) = forall x int :: {nodeVec(x)} nodeVec(x) == (if s.normalizeOnRead then normSeq(rawVec(x)) else rawVec(x))
macro okVecs(s) = (forall i int :: {s.cache[i]} 0 <= i < len(s.cache) && arr(s.cache[i]) != 0 ==> seq(s.cache[i]) == nodeVec(i)) && (forall i int :: {s.cache[i]} 0 <= i < len(s.cache) ==> allocated(s.cache[i]))
extern hnsw.shardedLockCache.vectorForID(ctx, id) (vec, err)
  ensures err == nil ==> seq(vec) == rawVec(id)
// every slot is guarded by the lock of its shard, the table by all of them
guarded hnsw.shardedLockCache.cache by shardedLocks mod 512
macro shards(s, d) = forall k int :: {locked(s.shardedLocks, k)} locked(s.shardedLocks, k) == old(locked(s.shardedLocks, k)) + (if 0 <= k < 512 then d else 0)
func shardedLockCache.obtainAllLocks(s)
  requires okShards(s)
  modifies locks(s.shardedLocks)
  inv <i uint64> i <= 512
  inv <i uint64> forall k int :: {locked(s.shardedLocks, k)} locked(s.shardedLocks, k) == old(locked(s.shardedLocks, k)) + (if 0 <= k < i then 1048576 else 0)
  ensures [all P15] shards(s, 1048576)
func shardedLockCache.releaseAllLocks(s)
  requires okShards(s)
  modifies locks(s.shardedLocks)
  inv <i uint64> i <= 512
  inv <i uint64> forall k int :: {locked(s.shardedLocks, k)} locked(s.shardedLocks, k) == old(locked(s.shardedLocks, k)) - (if 0 <= k < i then 1048576 else 0)
  ensures [all P15] shards(s, 0 - 1048576)
func compressedShardedLockCache.obtainAllLocks(s)
  ignore
func compressedShardedLockCache.releaseAllLocks(s)
  ignore
macro okShards(s) = len(s.shardedLocks) == 512 && shardFactor == 512

func shardedLockCache.grow(s, id)
  requires okVecs(s) && okShards(s)
  presumes [ids] id < 1000000000000 && len(s.cache) < 2000000000000
  modifies s.cache, s.cache[*]
  ensures [fits P15] id < len(s.cache)
  ensures [keep P15] len(s.cache) >= old(len(s.cache)) && forall i int :: {s.cache[i]} 0 <= i < old(len(s.cache)) ==> s.cache[i] == old(s.cache[i])
  ensures [new P15] forall i int :: {s.cache[i]} old(len(s.cache)) <= i < len(s.cache) ==> arr(s.cache[i]) == 0
  ensures [cache P15] okVecs(s)
  ensures [own] arr(s.cache) == old(arr(s.cache)) || fresh(s.cache)
  nopanic

func shardedLockCache.handleCacheMiss(s, ctx, id) (vec, err)
  requires okVecs(s) && sourced(s) && id < len(s.cache) && okShards(s)
  modifies s.cache[*], s.count, s.dims
  ensures [value P15] err == nil ==> seq(vec) == nodeVec(id)
  ensures [cache P15] okVecs(s)
  nopanic

func shardedLockCache.get(s, ctx, id) (vec, err)
  opt keep=yes
  requires okVecs(s) && sourced(s) && okShards(s)
  modifies s.cache, s.cache[*], s.count, s.dims
  ensures [value P15] err == nil ==> seq(vec) == nodeVec(id)
  ensures [cache P15] okVecs(s)
  ensures arr(s.cache) == old(arr(s.cache)) || fresh(s.cache)
  ensures allocated(s.cache)
  nopanic

func shardedLockCache.multiGet(s, ctx, ids) (vecs, errs)
  opt keep=yes
  requires okVecs(s) && sourced(s) && okShards(s)
  modifies s.cache, s.cache[*], s.count, s.dims
  inv <> okVecs(s)
  inv <> arr(s.cache) == old(arr(s.cache)) || fresh(s.cache)
  inv <> sourced(s) && okShards(s)
  inv <o ~[][]float32> fresh(o) && allocated(o) && arr(o) != arr(s.cache)
  inv <e ~[]error> fresh(e) && allocated(e)
  inv <> allocated(s.cache)
  inv <o ~[][]float32, e ~[]error, i int> forall k int :: {o[k]} 0 <= k <= i && k < len(ids) && e[k] == nil ==> seq(o[k]) == nodeVec(ids[k])
  ensures [len P15] len(vecs) == len(ids) && len(errs) == len(ids)
  ensures [value P15] forall k int :: {vecs[k]} 0 <= k < len(ids) && errs[k] == nil ==> seq(vecs[k]) == nodeVec(ids[k])
  ensures [cache P15] okVecs(s)
  nopanic

func shardedLockCache.preload(s, id, vec)
  opt keep=yes
  requires okVecs(s) && okShards(s) && allocated(vec)
  presumes [vector] seq(vec) == nodeVec(id)
  modifies s.cache, s.cache[*], s.count, s.dims
  ensures [there P15] id < len(s.cache) && s.cache[id] == vec
  ensures [cache P15] okVecs(s)
  nopanic

func shardedLockCache.delete(s, ctx, id)
  opt keep=yes
  requires okVecs(s) && okShards(s)
  presumes [ids] id < 1000000000000
  modifies s.cache[*], s.count
  ensures [gone P15] id < len(s.cache) ==> arr(s.cache[id]) == 0
  ensures [keep P15] forall i int :: {s.cache[i]} 0 <= i < len(s.cache) && i != id ==> s.cache[i] == old(s.cache[i])
  ensures [cache P15] okVecs(s)
  nopanic

func shardedLockCache.deleteAllVectors(s)
  opt keep=yes
  requires okVecs(s) && okShards(s)
  modifies s.cache, s.cache[*], s.count
  inv <i int> forall k int :: {s.cache[k]} 0 <= k <= i ==> arr(s.cache[k]) == 0
  inv <> okVecs(s)
  inv <> arr(s.cache) == old(arr(s.cache)) || fresh(s.cache)
  ensures [own] arr(s.cache) == old(arr(s.cache)) || fresh(s.cache)
  ensures [gone P15] s.count == 0 && forall k int :: {s.cache[k]} 0 <= k < len(s.cache) ==> arr(s.cache[k]) == 0
  ensures [cache P15] okVecs(s)

func shardedLockCache.replaceIfFull(s)
  opt keep=yes
  requires okVecs(s) && okShards(s)
  modifies s.cache, s.cache[*], s.count
  ensures [own] arr(s.cache) == old(arr(s.cache)) || fresh(s.cache)
  ensures [cache P15] okVecs(s)
  ensures [room P15] s.count < s.maxSize || s.count == 0

// the background purge, whenever it runs, keeps the cache right
func shardedLockCache.watchForDeletion(s)
  requires okVecs(s) && okShards(s)
  modifies s.cache, s.cache[*], s.count
  inv <> okVecs(s)
  inv <> arr(s.cache) == old(arr(s.cache)) || fresh(s.cache)
  ensures [own] arr(s.cache) == old(arr(s.cache)) || fresh(s.cache)
  ensures [cache P15] okVecs(s)
