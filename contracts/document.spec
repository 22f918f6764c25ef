package document
ignoretype logging.Logger

// ---- which pod, user and collection an operation may touch
// target, ownPod, ownUser: the table, pod and session the current operation works on
ghost target String
ghost ownPod String
ghost ownUser String
ghost touched Bool
ufun kvOf(Int) Int
ufun infoOf(String, String) Int
macro ns(coll) = "fave_" + coll
// every loaded index belongs to the open pod and to the collection it is kept for
macro okClient(c) = c.indices != nil && c.nextIds != nil && (c.podInfo != nil ==> c.podInfo == infoOf(c.pod, c.sessionId)) && (forall k string :: {k in dom(c.indices)} k in dom(c.indices) && c.indices[k] != nil ==> c.podInfo != nil && indexOn(c.indices[k], kvOf(c.podInfo), k))
macro onlyOwn(c, coll) = target == ns(coll) && ownPod == c.pod && ownUser == c.sessionId

// ---- the vector index as the document client sees it (hnsw.Flush and hnsw.GetDocCount are proved to satisfy count)
// nextId: the first id that was never handed to a vector of this collection
ghost nextId Int
ghost addedId Int
ghost entryLoaded Bool
extern hnsw.VectorIndex.GetDocCount(ix) (n, err)
  requires [target P11] unbox(ix, "*hnsw.hnsw").className == target && unbox(ix, "*hnsw.hnsw").nodes == kvOf(infoOf(ownPod, ownUser))
  ensures err == nil ==> n == storedCount
  ensures err != nil && isErr(err, collection.ErrEntryNotFound) ==> storedCount == 0
extern hnsw.VectorIndex.Flush(ix, n) (err)
  requires [all P10] n == nextId
  requires [target P11] unbox(ix, "*hnsw.hnsw").className == target && unbox(ix, "*hnsw.hnsw").nodes == kvOf(infoOf(ownPod, ownUser))
  modifies ghost(storedCount), ghost(touched)
  update touched := true
  ensures storedCount == (if err == nil then n else old(storedCount))
extern hnsw.VectorIndex.Add(ix, id, vec) (err)
  requires [unused P10] id >= nextId
  requires [loaded P09] entryLoaded
  requires [target P11] unbox(ix, "*hnsw.hnsw").className == target && unbox(ix, "*hnsw.hnsw").nodes == kvOf(infoOf(ownPod, ownUser))
  modifies ghost(nextId), ghost(addedId), ghost(touched), ghost(addedVec), ghost(addedLen)
  update touched := true
  ensures nextId == (if err == nil then id + 1 else old(nextId))
  ensures addedId == (if err == nil then id else old(addedId))
  ensures err == nil ==> addedLen == len(vec) && forall i int :: {select(addedVec, i)} {vec[i]} 0 <= i < len(vec) ==> select(addedVec, i) == vec[i]
extern hnsw.VectorIndex.LoadEntrypoint(ix) (err)
  requires [target P11] unbox(ix, "*hnsw.hnsw").className == target && unbox(ix, "*hnsw.hnsw").nodes == kvOf(infoOf(ownPod, ownUser))
  modifies ghost(entryLoaded)
  ensures entryLoaded <==> err == nil

// wantDocs, wantId, wantProps: the documents of the request being served (by position)
ghost wantDocs Int
ufun wantId(Int) String
ufun wantProps(Int) Int
// put: the maps of properties that were stored as documents
// addedVec, addedLen: the vector that was added last; corpi: the vector of the last text
ghost put (Array Int Bool)
ghost addedVec (Array Int Real)
ghost addedLen Int
ghost corpi Int
ghost corpiText String
// the vector that came with the properties
ufun hadVector(Int) Bool
ufun givenLen(Int) Int
ufun givenAt(Int, Int) Real
ufun numVal(String) Real
macro component(e) = (if isType(e, "float32") then unbox(e, "float32") else if isType(e, "float64") then float32(unbox(e, "float64")) else float32(typed(numVal(unbox(e, "json.Number")), "float64")))
macro floatsGiven(m, v) = allocated(v) && givenLen(m) == len(v) && (forall i int :: {givenAt(m, i)} 0 <= i < len(v) ==> givenAt(m, i) == v[i])
macro mixedGiven(m, v) = allocated(v) && givenLen(m) == len(v) && (forall i int :: {givenAt(m, i)} 0 <= i < len(v) ==> givenAt(m, i) == component(v[i]))
macro given(m) = (hadVector(m) <==> "vector" in dom(m) && m["vector"] != nil) && (isType(m["vector"], "[]float32") ==> floatsGiven(m, unbox(m["vector"], "[]float32"))) && (isType(m["vector"], "[]interface{}") ==> mixedGiven(m, unbox(m["vector"], "[]interface{}")))
func Client.AddDocuments(c, coll, props, documents) (err)
  opt also=P09
  requires [whole P10] len(documents) == wantDocs && forall k int :: {documents[k]} 0 <= k < len(documents) ==> documents[k] != nil && documents[k].ID == wantId(k) && documents[k].Properties == wantProps(k)
  presumes [client] okClient(c)
  presumes [own] onlyOwn(c, coll) && !entryLoaded
  // no id at or beyond both the stored count and the one remembered was handed out
  presumes [ids] 0 <= nextId < 1000000000000 && nextId == max(storedCount, (if ns(coll) in dom(c.nextIds) then c.nextIds[ns(coll)] else 0))
  presumes [none] forall e int :: {select(problems, e)} select(problems, e) == 0
  presumes [alias] errEntryNotFound == collection.ErrEntryNotFound
  presumes [errs] dfs.ErrUserNotLoggedIn != nil && dfs.ErrPodNotOpen != nil
  presumes [docs] forall k int :: {documents[k]} 0 <= k < len(documents) ==> documents[k].Properties != nil
  presumes [given] forall k int :: {documents[k]} 0 <= k < len(documents) ==> given(documents[k].Properties)
  presumes [apart] forall k, m int :: {documents[k], documents[m]} 0 <= k < m < len(documents) ==> documents[k].Properties != documents[m].Properties
  modifies any(Document.Properties), anymap("map[string]interface{}"), ghost(put), ghost(addedVec), ghost(addedLen), ghost(corpi), ghost(corpiText), ghost(nextId), ghost(addedId), ghost(storedCount), ghost(ioFailed), ghost(problems), ghost(entryLoaded), ghost(touched), ghost(committed), c.indices[*], c.nextIds[*]
  inv <n uint64> n == nextId
  inv <> nextId >= old(nextId) && storedCount == old(storedCount) && entryLoaded
  inv <i int> nextId <= old(nextId) + i + 1
  inv <i int> forall k int :: {documents[k]} i < k < len(documents) ==> ("vector" in dom(documents[k].Properties) <==> old("vector" in dom(documents[k].Properties))) && documents[k].Properties["vector"] == old(documents[k].Properties["vector"])
  inv <i int, f error> f == nil ==> forall k int :: {documents[k]} 0 <= k <= i ==> select(put, documents[k].Properties)
  inv <j int, v ~[]float32, s ~[]interface{}> len(v) == len(s) && (forall k int :: {v[k]} {s[k]} 0 <= k <= j ==> v[k] == component(s[k]))
  inv <v []float32> fresh(v)
  inv <j int, v []float32, s ~[]interface{}> len(v) == j + 1 && (forall k int :: {v[k]} {s[k]} 0 <= k <= j ==> v[k] == component(s[k]))
  ensures [session P11] old(c.sessionId == "" || c.podInfo == nil) ==> err != nil && (touched <==> old(touched))
  // the ids handed out stay handed out, whatever failed
  ensures [kept P10] nextId == max(storedCount, (if ns(coll) in dom(c.nextIds) then c.nextIds[ns(coll)] else 0))
  ensures [grows P10] nextId >= old(nextId)
  ensures [counted P10] err == nil ==> storedCount == nextId && committed
  // every document of the request is stored, or there is an error
  ensures [stored P10] err == nil ==> forall k int :: {wantProps(k)} 0 <= k < wantDocs ==> select(put, wantProps(k))
  ensures [others P11] forall k string :: {c.nextIds[k]} k != ns(coll) ==> c.nextIds[k] == old(c.nextIds[k])
  ensures [client P11] okClient(c)

extern pod.Info.GetKVStore(p) (r)
  ensures r != nil && r == kvOf(p)
extern pod.Info.GetPodPassword(p) (r)
  ignore
extern collection.KeyValue.OpenKVTable(kv, name, pw) (err)
  requires [target P11] name == target && kv == kvOf(infoOf(ownPod, ownUser))
extern collection.KeyValue.CreateKVTable(kv, name, pw, typ) (err)
  requires [target P11] name == target && kv == kvOf(infoOf(ownPod, ownUser))
  modifies ghost(touched)
  update touched := true
extern collection.KeyValue.DeleteKVTable(kv, name, pw) (err)
  requires [target P11] name == target && kv == kvOf(infoOf(ownPod, ownUser))
  // the table counts the ids of the documents
  requires [documents P11] docsGone
  modifies ghost(touched), ghost(kvGone)
  update touched := true
  ensures kvGone <==> err == nil || isErr(err, collection.ErrKVTableNotPresent)
extern dfs.API.IsDBOpened(a, session, pod, name) (r, err)
  requires [target P11] name == target && pod == ownPod && session == ownUser
extern dfs.API.DocOpen(a, session, pod, name) (err)
  requires [target P11] name == target && pod == ownPod && session == ownUser
extern dfs.API.DocCreate(a, session, pod, name, indexes, mutable) (err)
  requires [target P11] name == target && pod == ownPod && session == ownUser
  requires [linked P10] "hnswId" in dom(indexes)
  modifies ghost(touched)
  update touched := true
extern dfs.API.DocDelete(a, session, pod, name) (err)
  requires [target P11] name == target && pod == ownPod && session == ownUser
  modifies ghost(touched), ghost(docsGone)
  update touched := true
  ensures docsGone <==> err == nil || isErr(err, collection.ErrDocumentDBNotPresent)
extern dfs.API.CommitPodFeeds(a, pod, session) (err)
  requires [target P11] pod == ownPod && session == ownUser
  modifies ghost(committed)
  ensures committed <==> err == nil
extern dfs.API.DocPut(a, session, pod, name, data) (err)
  requires [target P11] name == target && pod == ownPod && session == ownUser
  requires [vector P10] isType(jsonDocId(seq(data)), "uint64") && hadVector(originOf(arr(data))) ==> addedLen == givenLen(originOf(arr(data)))
  requires [vector P10] isType(jsonDocId(seq(data)), "uint64") && hadVector(originOf(arr(data))) ==> (forall i int :: {select(addedVec, i)} 0 <= i < addedLen ==> select(addedVec, i) == givenAt(originOf(arr(data)), i))
  requires [vector P10] isType(jsonDocId(seq(data)), "uint64") && !hadVector(originOf(arr(data))) ==> addedLen == len(typed(corpi, "*vectorizer.Vector").vector) && (forall i int :: {select(addedVec, i)} 0 <= i < addedLen ==> select(addedVec, i) == typed(corpi, "*vectorizer.Vector").vector[i])
  requires [own P10] (isType(jsonDocId(seq(data)), "uint64") && unbox(jsonDocId(seq(data)), "uint64") == addedId && addedId + 1 == nextId) || (isType(jsonDocId(seq(data)), "int") && unbox(jsonDocId(seq(data)), "int") == 0 - 1)
  modifies ghost(touched), ghost(put)
  update touched := true
  ensures put == (if err == nil then old(store(put, originOf(arr(data)), true)) else old(put))
extern vectorizer.Vectorizer.Corpi(v, text) (r, err)
  requires [text P10] len(text) == 1
  modifies ghost(corpi), ghost(corpiText)
  ensures err == nil ==> r != nil && corpi == r && corpiText == text[0]
extern json.Number.Float64(n) (f, err)
  ensures err == nil ==> f == numVal(n)

// ---- sessions, pods and collections
ghost docsGone Bool
ghost kvGone Bool
ghost committed Bool
extern lru.Cache.Purge(c)
  ignore
extern dfs.API.LoginUserV2(a, user, pass, session) (r, err)
  ensures err == nil ==> r != nil && r.UserInfo != nil
extern dfs.API.IsPodExist(a, pod, session) (r)
  requires [target P11] pod == ownPod && session == ownUser
extern dfs.API.CreatePod(a, pod, session) (r, err)
  requires [target P11] pod == ownPod && session == ownUser
  modifies ghost(committed)
  update committed := false
extern dfs.API.OpenPod(a, pod, session) (r, err)
  requires [target P11] pod == ownPod && session == ownUser
  ensures err == nil ==> r != nil && r == infoOf(pod, session)
extern user.Info.GetSessionId(u) (r)
  ignore
func Client.hasIndex(c, name) (r)
  requires c.indices != nil
  ensures [loaded P11] r <==> name in dom(c.indices) && c.indices[name] != nil
func Client.leavePod(c)
  requires [locked] locked(c.lock) >= 1048576 && locked(c.addLock) >= 1048576
  modifies c.pod, c.podInfo, c.nextIds, c.indices
  ensures [left P11] c.podInfo == nil && c.indices != nil && c.nextIds != nil && fresh(c.indices) && fresh(c.nextIds) && (forall k string :: {k in dom(c.indices)} {k in dom(c.nextIds)} !(k in dom(c.indices)) && !(k in dom(c.nextIds)))
func Client.Login(c, user, pass) (err)
  presumes [client] okClient(c)
  modifies c.pod, c.podInfo, c.nextIds, c.indices, c.sessionId
  ensures [client P11] okClient(c)
  // what was open for the user before is not open for this one
  ensures [left P11] err == nil ==> c.podInfo == nil
  ensures [failed P11] err != nil ==> c.pod == old(c.pod) && c.podInfo == old(c.podInfo) && c.sessionId == old(c.sessionId) && c.indices == old(c.indices)
func Client.OpenPod(c, pod) (err)
  presumes [client] okClient(c)
  presumes [own] ownPod == pod && ownUser == c.sessionId && committed
  presumes [errs] dfs.ErrUserNotLoggedIn != nil
  modifies c.pod, c.podInfo, c.nextIds, c.indices, ghost(committed)
  ensures [client P11] okClient(c)
  ensures [session P11] old(c.sessionId) == "" ==> err != nil
  ensures [opened P11] err == nil ==> c.pod == pod && c.podInfo != nil && c.podInfo == infoOf(pod, c.sessionId)
  ensures [failed P11] err != nil ==> c.pod == old(c.pod) && c.podInfo == old(c.podInfo) && c.indices == old(c.indices)
  // a new pod is there after a restart
  ensures [durable P11] err == nil ==> committed
  // the ids handed out in the pod that stays open are not forgotten
  ensures [same P10] err == nil && old(c.podInfo) != nil && old(c.pod) == pod ==> c.nextIds == old(c.nextIds)
func Client.CreateCollection(c, col) (err)
  opt also=P10
  presumes [client] okClient(c)
  presumes [own] onlyOwn(c, col.Name)
  presumes [none] forall e int :: {select(problems, e)} select(problems, e) == 0
  presumes [errs] dfs.ErrUserNotLoggedIn != nil && dfs.ErrPodNotOpen != nil
  requires col != nil && col.Indexes != nil
  modifies col.Indexes[*], c.indices[*], ghost(touched), ghost(problems), ghost(committed)
  ensures [session P11] old(c.sessionId == "" || c.podInfo == nil) ==> err != nil && (touched <==> old(touched))
  ensures [client P11] okClient(c)
  ensures [created P11] err == nil ==> ns(col.Name) in dom(c.indices) && c.indices[ns(col.Name)] != nil && committed
func Client.DeleteCollection(c, coll) (err)
  presumes [client] okClient(c)
  presumes [own] onlyOwn(c, coll)
  presumes [fresh] !docsGone && !kvGone
  presumes [alias] errDocumentDBNotPresent == collection.ErrDocumentDBNotPresent && errKVTableNotPresent == collection.ErrKVTableNotPresent
  presumes [errs] dfs.ErrUserNotLoggedIn != nil && dfs.ErrPodNotOpen != nil
  modifies c.indices[*], c.nextIds[*], ghost(touched), ghost(docsGone), ghost(kvGone), ghost(committed)
  ensures [session P11] old(c.sessionId == "" || c.podInfo == nil) ==> err != nil && (touched <==> old(touched))
  ensures [client P11] okClient(c)
  ensures [deleted P11] err == nil ==> docsGone && kvGone && committed && !(ns(coll) in dom(c.indices)) && !(ns(coll) in dom(c.nextIds))
  ensures [others P11] forall k string :: {k in dom(c.indices)} {k in dom(c.nextIds)} k != ns(coll) ==> ((k in dom(c.indices)) <==> old(k in dom(c.indices))) && ((k in dom(c.nextIds)) <==> old(k in dom(c.nextIds))) && c.indices[k] == old(c.indices[k]) && c.nextIds[k] == old(c.nextIds[k])

// ---- searches
ghost foundAt (Array Int Int)
// the query of the last search
ghost askedVec (Array Int Real)
ghost askedLen Int
ghost distAt (Array Int Real)
ufun docIdOf(Int) Int
extern hnsw.VectorIndex.KnnSearchByVectorMaxDist(ix, query, dist, ef, al) (ids, dists, err)
  requires [ef P12] 0 <= ef
  requires [loaded P09 P12] entryLoaded
  requires [target P11] unbox(ix, "*hnsw.hnsw").className == target && unbox(ix, "*hnsw.hnsw").nodes == kvOf(infoOf(ownPod, ownUser))
  modifies ghost(foundAt), ghost(distAt), ghost(askedVec), ghost(askedLen)
  ensures askedLen == len(query) && (forall i int :: {select(askedVec, i)} {query[i]} 0 <= i < len(query) ==> select(askedVec, i) == query[i])
  ensures err == nil ==> len(ids) == len(dists) && fresh(arr(dists))
  ensures err == nil ==> (forall i int :: {dists[i]} 0 <= i < len(dists) ==> dists[i] <= dist && dists[i] == select(distAt, i))
  ensures err == nil ==> (forall i int :: {ids[i]} 0 <= i < len(ids) ==> ids[i] == select(foundAt, i))
  ensures err == nil ==> (forall i, k int :: {dists[i], dists[k]} 0 <= i < k < len(dists) ==> dists[i] <= dists[k])
// the first document of a table that matches an expression
ufun firstDoc(String, String) Int
extern dfs.API.DocFind(a, session, pod, name, expr, limit) (docs, err)
  requires [target P11] name == target && pod == ownPod && session == ownUser
  ensures err == nil ==> fresh(arr(docs)) || len(docs) == 0
  ensures err == nil && len(docs) > 0 ==> seq(docs[0]) == firstDoc(name, expr)
func isEmpty(index) (r, err)
  requires [target P11] unbox(index, "*hnsw.hnsw").className == target && unbox(index, "*hnsw.hnsw").nodes == kvOf(infoOf(ownPod, ownUser))
  presumes [alias] errEntryNotFound == collection.ErrEntryNotFound
  ensures [empty P12] err == nil ==> (r <==> storedCount == 0)
func hasIndexId(doc, id) (r)
  ensures [own P10 P12] r ==> docIdOf(seq(doc)) == id
func onlyFound(documents, dists) (docs, ds)
  requires len(documents) == len(dists)
  modifies documents[*], dists[*]
  inv <n int, i int> 0 <= n <= i + 1 && i < len(documents)
  inv <n int, i int> forall m int :: {dists[m]} {documents[m]} i < m < len(dists) ==> dists[m] == old(dists[m]) && documents[m] == old(documents[m])
  inv <n int, i int> forall a int :: {documents[a]} {dists[a]} 0 <= a < n ==> documents[a] != nil && (exists k int :: {old(documents[k])} a <= k <= i && documents[a] == old(documents[k]) && dists[a] == old(dists[k]))
  inv <n int, i int> old(forall p, q int :: {dists[p], dists[q]} 0 <= p < q < len(dists) ==> dists[p] <= dists[q]) ==> (forall a, b int :: {dists[a], old(dists[b])} 0 <= a < n && i < b < len(dists) ==> dists[a] <= old(dists[b]))
  inv <n int, i int> old(forall p, q int :: {dists[p], dists[q]} 0 <= p < q < len(dists) ==> dists[p] <= dists[q]) ==> (forall a, b int :: {dists[a], dists[b]} 0 <= a < b < n ==> dists[a] <= dists[b])
  ensures [pairs P12] len(docs) == len(ds) && len(docs) <= len(documents)
  ensures [from P10 P12] forall a int :: {docs[a]} {ds[a]} 0 <= a < len(docs) ==> docs[a] != nil && (exists k int :: {old(documents[k])} a <= k < len(documents) && docs[a] == old(documents[k]) && ds[a] == old(dists[k]))
  ensures [sorted P12] old(forall p, q int :: {dists[p], dists[q]} 0 <= p < q < len(dists) ==> dists[p] <= dists[q]) ==> (forall a, b int :: {ds[a], ds[b]} 0 <= a < b < len(ds) ==> ds[a] <= ds[b])
  nopanic
func Client.GetNearDocuments(c, coll, text, distance, limit) (docs, dists, err)
  opt also=P09
  presumes [client] okClient(c)
  presumes [own] onlyOwn(c, coll) && !entryLoaded
  presumes [none] forall e int :: {select(problems, e)} select(problems, e) == 0
  presumes [errs] dfs.ErrUserNotLoggedIn != nil && dfs.ErrPodNotOpen != nil
  modifies c.indices[*], ghost(problems), ghost(foundAt), ghost(distAt), ghost(entryLoaded), ghost(askedVec), ghost(askedLen), ghost(corpi), ghost(corpiText)
  inv <d ~[][]byte> forall k int :: {d[k]} 0 <= k < len(d) && d[k] != nil ==> docIdOf(seq(d[k])) == select(foundAt, k)
  ensures [session P11] old(c.sessionId == "" || c.podInfo == nil) ==> err != nil
  ensures [client P11] okClient(c)
  // the text asked for is what is searched for
  ensures [query P12] err == nil ==> corpiText == text && (storedCount != 0 ==> askedLen == len(typed(corpi, "*vectorizer.Vector").vector) && (forall i int :: {select(askedVec, i)} 0 <= i < askedLen ==> select(askedVec, i) == typed(corpi, "*vectorizer.Vector").vector[i]))
  ensures [empty P12] err == nil && storedCount == 0 ==> len(docs) == 0
  ensures [pairs P12] err == nil ==> len(docs) == len(dists)
  ensures [limit P12] err == nil && limit > 0 ==> len(docs) <= limit
  ensures [within P12] err == nil ==> forall i int :: {dists[i]} 0 <= i < len(dists) ==> dists[i] <= distance
  ensures [sorted P12] err == nil ==> forall i, k int :: {dists[i], dists[k]} 0 <= i < k < len(dists) ==> dists[i] <= dists[k]
  // a document comes with the distance at which its own vector was found
  ensures [matching P10 P12] err == nil ==> forall i int :: {docs[i]} 0 <= i < len(docs) ==> exists k int :: {select(foundAt, k)} docIdOf(seq(docs[i])) == select(foundAt, k) && dists[i] == select(distAt, k)
  nopanic
func Client.GetNearDocumentsByVector(c, coll, vector, distance, limit) (docs, dists, err)
  opt also=P09
  presumes [client] okClient(c)
  presumes [own] onlyOwn(c, coll) && !entryLoaded
  presumes [none] forall e int :: {select(problems, e)} select(problems, e) == 0
  presumes [errs] dfs.ErrUserNotLoggedIn != nil && dfs.ErrPodNotOpen != nil
  modifies c.indices[*], ghost(problems), ghost(foundAt), ghost(distAt), ghost(entryLoaded), ghost(askedVec), ghost(askedLen)
  inv <d ~[][]byte> forall k int :: {d[k]} 0 <= k < len(d) && d[k] != nil ==> docIdOf(seq(d[k])) == select(foundAt, k)
  ensures [session P11] old(c.sessionId == "" || c.podInfo == nil) ==> err != nil
  ensures [client P11] okClient(c)
  ensures [query P12] err == nil && storedCount != 0 ==> askedLen == len(vector) && (forall i int :: {select(askedVec, i)} 0 <= i < askedLen ==> select(askedVec, i) == vector[i])
  ensures [empty P12] err == nil && storedCount == 0 ==> len(docs) == 0
  ensures [pairs P12] err == nil ==> len(docs) == len(dists)
  ensures [limit P12] err == nil && limit > 0 ==> len(docs) <= limit
  ensures [within P12] err == nil ==> forall i int :: {dists[i]} 0 <= i < len(dists) ==> dists[i] <= distance
  ensures [sorted P12] err == nil ==> forall i, k int :: {dists[i], dists[k]} 0 <= i < k < len(dists) ==> dists[i] <= dists[k]
  // a document comes with the distance at which its own vector was found
  ensures [matching P10 P12] err == nil ==> forall i int :: {docs[i]} 0 <= i < len(docs) ==> exists k int :: {select(foundAt, k)} docIdOf(seq(docs[i])) == select(foundAt, k) && dists[i] == select(distAt, k)
  nopanic
func Client.GetDocument(c, coll, property, value) (doc, err)
  opt also=P11
  presumes [own] onlyOwn(c, coll)
  ensures [found P12] err == nil ==> seq(doc) == firstDoc(ns(coll), (if property != "" && value != "" then property + "=" + value else ""))
  nopanic
// listed: the document tables of the open pod
ghost listed (Array String Bool)
extern strings.CutPrefix(s, p) (after, found)
  ensures found <==> prefixof(p, s)
  ensures found ==> p + after == s
  ensures !found ==> after == s
extern strings.HasPrefix(s, p) (r)
  ensures r <==> prefixof(p, s)
extern strings.TrimPrefix(s, p) (r)
  ensures prefixof(p, s) ==> s == p + r
extern dfs.API.DocList(a, session, pod) (docs, err)
  requires [target P11] pod == ownPod && session == ownUser
  ensures err == nil ==> docs != nil && (forall k string :: {k in dom(docs)} {select(listed, k)} (k in dom(docs) <==> select(listed, k)) && (k in dom(docs) ==> docs[k].Name == k))
func Client.GetCollections(c) (r, err)
  presumes [own] ownPod == c.pod && ownUser == c.sessionId
  presumes [errs] dfs.ErrUserNotLoggedIn != nil && dfs.ErrPodNotOpen != nil
  inv <a []*document.Collection> 0 <= len(a) && (forall i int :: {a[i]} 0 <= i < len(a) ==> a[i] != nil && allocated(a[i]) && select(listed, ns(a[i].Name)) && visited(ns(a[i].Name)))
  inv <a []*document.Collection> at(len(a)) && (forall k string :: {visited(k)} visited(k) && prefixof("fave_", k) ==> exists i int :: {at(i)} at(i) && 0 <= i < len(a) && ns(a[i].Name) == k)
  inv <a []*document.Collection> forall i, m int :: {a[i], a[m]} 0 <= i < m < len(a) ==> a[i].Name != a[m].Name
  ensures [session P11] old(c.sessionId == "" || c.podInfo == nil) ==> err != nil
  ensures [sound P11] err == nil ==> forall i int :: {r[i]} 0 <= i < len(r) ==> r[i] != nil && select(listed, ns(r[i].Name))
  ensures [complete P11] err == nil ==> forall k string :: {select(listed, k)} select(listed, k) && prefixof("fave_", k) ==> exists i int :: {at(i)} at(i) && 0 <= i < len(r) && ns(r[i].Name) == k
  ensures [once P11] err == nil ==> forall i, m int :: {r[i], r[m]} 0 <= i < m < len(r) ==> r[i].Name != r[m].Name

// what is open is changed under both locks and read under either
guarded document.Client.indices by hnswLock
guarded document.Client.nextIds by addLock
guarded document.Client.pod by lock,addLock
guarded document.Client.podInfo by lock,addLock
guarded document.Client.sessionId by lock,addLock
