package hnsw

// ---- the JSON form of what the index stores
// a value put under the key of a node is the JSON form of that node; entrypoint and count are what was last put
ufun jsonEntry(Int) Int
ufun jsonCount(Int) Int
ufun jsonDocId(Int) Int
// the map a JSON text was made from
ufun originOf(Int) Int
ufun jsonQuery(Int) Int
ghost storedEntry Int
ghost storedCount Int
ghost entryStored Bool
ghost written (Array Int Bool)
axiom !isNodeKey("entrypoint") && !isNodeKey("count")
ghost ioFailed Bool
extern json.Marshal(v) (data, err)
  modifies ghost(ioFailed)
  ensures ioFailed <==> old(ioFailed) || err != nil
  ensures err == nil && isType(v, "*vertex") ==> jsonId(seq(data)) == unbox(v, "*vertex").Id && jsonVec(seq(data)) == seq(unbox(v, "*vertex").Vector)
  ensures err == nil && isType(v, "*entrypoint") ==> jsonEntry(seq(data)) == unbox(v, "*entrypoint").ID
  ensures err == nil && isType(v, "*count") ==> jsonCount(seq(data)) == unbox(v, "*count").Count
  ensures err == nil && isType(v, "map[string]interface{}") ==> "hnswId" in dom(unbox(v, "map[string]interface{}")) ==> jsonDocId(seq(data)) == unbox(v, "map[string]interface{}")["hnswId"]
  ensures err == nil && isType(v, "map[string]interface{}") ==> originOf(arr(data)) == unbox(v, "map[string]interface{}")
  ensures err == nil && isType(v, "map[string][]string") && "query" in dom(unbox(v, "map[string][]string")) ==> jsonQuery(seq(data)) == seq(unbox(v, "map[string][]string")["query"])
extern collection.KeyValue.KVPut(kv, table, key, value) (err)
  requires [node P09] isNodeKey(key) ==> jsonId(seq(value)) == idOfKey(key) && jsonVec(seq(value)) == nodeVec(idOfKey(key))
  modifies ghost(storedEntry), ghost(storedCount), ghost(written), ghost(ioFailed)
  ensures ioFailed <==> old(ioFailed) || err != nil
  ensures storedEntry == (if key == "entrypoint" && err == nil then jsonEntry(seq(value)) else old(storedEntry))
  ensures storedCount == (if key == "count" && err == nil then jsonCount(seq(value)) else old(storedCount))
  ensures isNodeKey(key) && err == nil ==> written == old(store(written, idOfKey(key), true))
  ensures !(isNodeKey(key) && err == nil) ==> written == old(written)

func hnsw.Flush(h, n) (err)
  opt also=P05,P07
  modifies any(vertex.Committed), ghost(storedEntry), ghost(storedCount), ghost(written), ghost(ioFailed)
  inv <> forall v *vertex :: {v.Committed} v.Committed && !old(v.Committed) ==> select(written, v.Id)
  // only a node that was put is marked as stored
  ensures [marked P09] forall v *vertex :: {v.Committed} v.Committed && !old(v.Committed) ==> select(written, v.Id)
  ensures [entry P09] err == nil ==> storedEntry == h.entryPointID
  ensures [count P09 P10] err == nil ==> storedCount == n
func hnsw.GetDocCount(h) (n, err)
  ensures [none] err != nil ==> n == 0
  presumes [range] storedCount >= 0
  ensures [absent P10] err != nil && isErr(err, collection.ErrEntryNotFound) ==> storedCount == 0
  ensures [count P09 P10] err == nil ==> n == storedCount
func hnsw.LoadEntrypoint(h) (err)
  modifies h.entryPointID, h.currentMaximumLayer
  // a failure to read the stored entrypoint is reported, whatever is used instead would hide what it cannot reach
  ensures [entry P09] err == nil ==> h.entryPointID == storedEntry || h.entryPointID == 0 && !entryStored
func New$1(key, value)
  opt keep=yes
  requires isType(value, "*vertex") && unbox(value, "*vertex") != nil ==> okNode(unbox(value, "*vertex"), unbox(value, "*vertex").Id)
  requires (*index).tombstones != nil
  modifies ghost(storedEntry), ghost(storedCount), ghost(written), ghost(ioFailed)
  // a node that is not stored yet is stored before it leaves the cache (unless storing fails)
  ensures [evicted P09] isType(value, "*vertex") && !unbox(value, "*vertex").Committed && !(unbox(value, "*vertex").Id in dom((*index).tombstones)) && !ioFailed ==> select(written, unbox(value, "*vertex").Id)
