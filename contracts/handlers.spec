package handlers

ufun env(String) String
extern os.Getenv(key) (r)
  ensures r == env(key)
func enabled(v) (r)
  ensures [on P14] r <==> v == "on" || v == "enabled" || v == "1" || v == "true"
macro envOr(key, value) = (if env(key) != "" then env(key) else value)
func FromEnv(c)
  requires c != nil
  modifies *c
  ensures [verbose P14] c.Verbose <==> old(c.Verbose) || env("VERBOSE") == "on" || env("VERBOSE") == "enabled" || env("VERBOSE") == "1" || env("VERBOSE") == "true"
  ensures [env P14] c.BeeAPI == envOr("BEE_API", old(c.BeeAPI)) && c.RPCEndpoint == envOr("RPC_API", old(c.RPCEndpoint)) && c.StampId == envOr("STAMP_ID", old(c.StampId)) && c.GloveLevelDBUrl == envOr("VECTORIZER_URL", old(c.GloveLevelDBUrl)) && c.Username == envOr("USER", old(c.Username)) && c.Password == envOr("PASSWORD", old(c.Password)) && c.Pod == envOr("POD", old(c.Pod))
func SetDefaults(c)
  requires c != nil
  modifies *c
  ensures [filled P14] c.BeeAPI == (if old(c.BeeAPI) == "" then DEFAULT_BEE_API else old(c.BeeAPI)) && c.StampId == (if old(c.StampId) == "" then DEFAULT_STAMP_ID else old(c.StampId))
  ensures [kept P14] c.Verbose == old(c.Verbose) && c.RPCEndpoint == old(c.RPCEndpoint) && c.GloveLevelDBUrl == old(c.GloveLevelDBUrl) && c.Username == old(c.Username) && c.Password == old(c.Password) && c.Pod == old(c.Pod)

// ---- responses (generated code: a new response, and the same response with a payload)
extern operations.NewFaveCreateCollectionOK() (r)
  ensures r != nil && fresh(r)
extern operations.FaveCreateCollectionOK.WithPayload(o, payload) (r)
  modifies o.Payload
  ensures r == o && o.Payload == payload
extern operations.NewFaveCreateCollectionBadRequest() (r)
  ensures r != nil && fresh(r)
extern operations.FaveCreateCollectionBadRequest.WithPayload(o, payload) (r)
  modifies o.Payload
  ensures r == o && o.Payload == payload
extern operations.NewFaveDeleteCollectionOK() (r)
  ensures r != nil && fresh(r)
extern operations.FaveDeleteCollectionOK.WithPayload(o, payload) (r)
  modifies o.Payload
  ensures r == o && o.Payload == payload
extern operations.NewFaveDeleteCollectionBadRequest() (r)
  ensures r != nil && fresh(r)
extern operations.FaveDeleteCollectionBadRequest.WithPayload(o, payload) (r)
  modifies o.Payload
  ensures r == o && o.Payload == payload
extern operations.NewFaveGetCollectionsOK() (r)
  ensures r != nil && fresh(r)
extern operations.FaveGetCollectionsOK.WithPayload(o, payload) (r)
  modifies o.Payload
  ensures r == o && o.Payload == payload
extern operations.NewFaveGetCollectionsBadRequest() (r)
  ensures r != nil && fresh(r)
extern operations.FaveGetCollectionsBadRequest.WithPayload(o, payload) (r)
  modifies o.Payload
  ensures r == o && o.Payload == payload
extern operations.NewFaveAddDocumentsOK() (r)
  ensures r != nil && fresh(r)
extern operations.FaveAddDocumentsOK.WithPayload(o, payload) (r)
  modifies o.Payload
  ensures r == o && o.Payload == payload
extern operations.NewFaveAddDocumentsBadRequest() (r)
  ensures r != nil && fresh(r)
extern operations.FaveAddDocumentsBadRequest.WithPayload(o, payload) (r)
  modifies o.Payload
  ensures r == o && o.Payload == payload
extern operations.NewFaveGetNearestDocumentsOK() (r)
  ensures r != nil && fresh(r)
extern operations.FaveGetNearestDocumentsOK.WithPayload(o, payload) (r)
  modifies o.Payload
  ensures r == o && o.Payload == payload
extern operations.NewFaveGetNearestDocumentsBadRequest() (r)
  ensures r != nil && fresh(r)
extern operations.FaveGetNearestDocumentsBadRequest.WithPayload(o, payload) (r)
  modifies o.Payload
  ensures r == o && o.Payload == payload
extern operations.NewFaveGetNearestDocumentsByVectorOK() (r)
  ensures r != nil && fresh(r)
extern operations.FaveGetNearestDocumentsByVectorOK.WithPayload(o, payload) (r)
  modifies o.Payload
  ensures r == o && o.Payload == payload
extern operations.NewFaveGetNearestDocumentsByVectorBadRequest() (r)
  ensures r != nil && fresh(r)
extern operations.FaveGetNearestDocumentsByVectorBadRequest.WithPayload(o, payload) (r)
  modifies o.Payload
  ensures r == o && o.Payload == payload
extern operations.NewGetDocumentsOK() (r)
  ensures r != nil && fresh(r)
extern operations.GetDocumentsOK.WithPayload(o, payload) (r)
  modifies o.Payload
  ensures r == o && o.Payload == payload
extern operations.NewGetDocumentsBadRequest() (r)
  ensures r != nil && fresh(r)
extern operations.GetDocumentsBadRequest.WithPayload(o, payload) (r)
  modifies o.Payload
  ensures r == o && o.Payload == payload
func createErrorResponseObject(messages) (r)
  ensures [made P12] r != nil && fresh(r)
func createOKResponseObject(m) (r)
  ensures [made P12] r != nil && fresh(r) && r.Message == m

// ---- what a request is answered with
macro usable(s) = s != nil && s.doc != nil && okClient(s.doc)
func Handler.FaveCreateCollectionHandler(s, request) (r)
  presumes [client] usable(s)
  presumes [own] !committed
  requires request.Body != nil
  opt callbacks=harmless
  modifies s.doc.indices[*], ghost(touched), ghost(problems), ghost(committed)
  ensures [answer P12] isType(r, "*operations.FaveCreateCollectionOK") || isType(r, "*operations.FaveCreateCollectionBadRequest")
  ensures [refused P12] request.Body.Name == "" || request.Body.Indexes == nil || (exists i int :: {request.Body.Indexes[i]} 0 <= i < len(request.Body.Indexes) && request.Body.Indexes[i] == nil) ==> isType(r, "*operations.FaveCreateCollectionBadRequest") && (touched <==> old(touched))
  ensures [done P12] isType(r, "*operations.FaveCreateCollectionOK") ==> committed && ns(request.Body.Name) in dom(s.doc.indices)
  inv <i int> forall k int :: {request.Body.Indexes[k]} 0 <= k <= i ==> request.Body.Indexes[k] != nil
func Handler.FaveDeleteCollectionHandler(s, request) (r)
  presumes [client] usable(s)
  presumes [own] !committed
  modifies s.doc.indices[*], s.doc.nextIds[*], ghost(touched), ghost(docsGone), ghost(kvGone), ghost(committed)
  ensures [answer P12] isType(r, "*operations.FaveDeleteCollectionOK") || isType(r, "*operations.FaveDeleteCollectionBadRequest")
  ensures [done P12] isType(r, "*operations.FaveDeleteCollectionOK") ==> docsGone && kvGone && committed
func Handler.FaveAddDocumentsHandler(s, request) (r)
  presumes [client] usable(s)
  presumes [own] !committed
  presumes [want] wantDocs == len(request.Body.Documents) && (forall i int :: {request.Body.Documents[i]} 0 <= i < len(request.Body.Documents) && request.Body.Documents[i] != nil ==> request.Body.Documents[i].ID == wantId(i) && unbox(request.Body.Documents[i].Properties, "map[string]interface{}") == wantProps(i))
  requires request.Body != nil
  modifies any(document.Document.Properties), anymap("map[string]interface{}"), ghost(put), ghost(addedVec), ghost(addedLen), ghost(corpi), ghost(corpiText), ghost(nextId), ghost(addedId), ghost(storedCount), ghost(ioFailed), ghost(problems), ghost(entryLoaded), ghost(touched), ghost(committed), s.doc.indices[*], s.doc.nextIds[*]
  ensures [answer P12] isType(r, "*operations.FaveAddDocumentsOK") || isType(r, "*operations.FaveAddDocumentsBadRequest")
  ensures [refused P12] request.Body.Name == "" || old(request.Body.Documents == nil || request.Body.PropertiesToVectorize == nil || (exists i int :: {request.Body.Documents[i]} 0 <= i < len(request.Body.Documents) && (request.Body.Documents[i] == nil || !isType(request.Body.Documents[i].Properties, "map[string]interface{}")))) ==> isType(r, "*operations.FaveAddDocumentsBadRequest") && (touched <==> old(touched))
  ensures [done P10 P12] isType(r, "*operations.FaveAddDocumentsOK") ==> storedCount == nextId && committed && (forall k int :: {wantProps(k)} 0 <= k < wantDocs ==> select(put, wantProps(k)))
  inv <i int, d ~[]*document.Document> forall k int :: {d[k]} {request.Body.Documents[k]} 0 <= k <= i ==> request.Body.Documents[k] != nil && isType(request.Body.Documents[k].Properties, "map[string]interface{}") && d[k] != nil && allocated(d[k]) && d[k].ID == wantId(k) && d[k].Properties == wantProps(k)
macro answers(ok) = ok.Payload
macro propsOf(d) = unbox(d.Properties, "map[string]interface{}")
// the distance of a document is the one its own vector was found at, within the bound asked for
macro answered(d, bound) = d != nil && isType(propsOf(d)["distance"], "float32") && unbox(propsOf(d)["distance"], "float32") <= bound && (exists k int :: {select(foundAt, k)} linkOf(propsOf(d)["hnswId"]) == select(foundAt, k) && unbox(propsOf(d)["distance"], "float32") == select(distAt, k))
func Handler.FaveGetNearestDocumentsHandler(s, request) (r)
  presumes [client] usable(s)
  requires request.Body != nil
  modifies s.doc.indices[*], anymap("map[string]interface{}"), ghost(problems), ghost(foundAt), ghost(distAt), ghost(entryLoaded), ghost(askedVec), ghost(askedLen), ghost(corpi), ghost(corpiText)
  ensures [answer P12] isType(r, "*operations.FaveGetNearestDocumentsOK") || isType(r, "*operations.FaveGetNearestDocumentsBadRequest")
  ensures [refused P12] request.Body.Name == "" || request.Body.Text == "" ==> isType(r, "*operations.FaveGetNearestDocumentsBadRequest")
  ensures [payload P12] isType(r, "*operations.FaveGetNearestDocumentsOK") ==> answers(unbox(r, "*operations.FaveGetNearestDocumentsOK")) != nil && answers(unbox(r, "*operations.FaveGetNearestDocumentsOK")).Name == request.Body.Name
  ensures [query P12] isType(r, "*operations.FaveGetNearestDocumentsOK") ==> corpiText == request.Body.Text
  ensures [limit P12] isType(r, "*operations.FaveGetNearestDocumentsOK") && 0 < request.Body.Limit ==> len(answers(unbox(r, "*operations.FaveGetNearestDocumentsOK")).Documents) <= request.Body.Limit
  ensures [distance P12] isType(r, "*operations.FaveGetNearestDocumentsOK") ==> forall i int :: {answers(unbox(r, "*operations.FaveGetNearestDocumentsOK")).Documents[i]} 0 <= i < len(answers(unbox(r, "*operations.FaveGetNearestDocumentsOK")).Documents) ==> answered(answers(unbox(r, "*operations.FaveGetNearestDocumentsOK")).Documents[i], request.Body.Distance)
  inv <i int, d ~[]*models.Document> forall k int :: {d[k]} 0 <= k <= i ==> d[k] != nil && allocated(d[k]) && isType(d[k].Properties, "map[string]interface{}") && allocated(propsOf(d[k])) && answered(d[k], request.Body.Distance)
func Handler.FaveGetNearestDocumentsByVectorHandler(s, request) (r)
  presumes [client] usable(s)
  requires request.Body != nil
  modifies s.doc.indices[*], anymap("map[string]interface{}"), ghost(problems), ghost(foundAt), ghost(distAt), ghost(entryLoaded), ghost(askedVec), ghost(askedLen)
  ensures [answer P12] isType(r, "*operations.FaveGetNearestDocumentsByVectorOK") || isType(r, "*operations.FaveGetNearestDocumentsByVectorBadRequest")
  ensures [refused P12] request.Body.Name == "" || request.Body.Vector == nil ==> isType(r, "*operations.FaveGetNearestDocumentsByVectorBadRequest")
  ensures [payload P12] isType(r, "*operations.FaveGetNearestDocumentsByVectorOK") ==> answers(unbox(r, "*operations.FaveGetNearestDocumentsByVectorOK")) != nil && answers(unbox(r, "*operations.FaveGetNearestDocumentsByVectorOK")).Name == request.Body.Name
  ensures [query P12] isType(r, "*operations.FaveGetNearestDocumentsByVectorOK") && storedCount != 0 ==> askedLen == len(request.Body.Vector) && (forall i int :: {select(askedVec, i)} 0 <= i < askedLen ==> select(askedVec, i) == float32(request.Body.Vector[i]))
  inv <i int, v ~[]float32> len(v) == len(request.Body.Vector) && (forall k int :: {v[k]} {request.Body.Vector[k]} 0 <= k <= i ==> v[k] == float32(request.Body.Vector[k]))
  ensures [limit P12] isType(r, "*operations.FaveGetNearestDocumentsByVectorOK") && 0 < request.Body.Limit ==> len(answers(unbox(r, "*operations.FaveGetNearestDocumentsByVectorOK")).Documents) <= request.Body.Limit
  ensures [distance P12] isType(r, "*operations.FaveGetNearestDocumentsByVectorOK") ==> forall i int :: {answers(unbox(r, "*operations.FaveGetNearestDocumentsByVectorOK")).Documents[i]} 0 <= i < len(answers(unbox(r, "*operations.FaveGetNearestDocumentsByVectorOK")).Documents) ==> answered(answers(unbox(r, "*operations.FaveGetNearestDocumentsByVectorOK")).Documents[i], request.Body.Distance)
  inv <i int, d ~[]*models.Document> forall k int :: {d[k]} 0 <= k <= i ==> d[k] != nil && allocated(d[k]) && isType(d[k].Properties, "map[string]interface{}") && allocated(propsOf(d[k])) && answered(d[k], request.Body.Distance)
func Handler.FaveGetCollectionsHandler(s, request) (r)
  presumes [client] usable(s)
  presumes [own] ownPod == s.doc.pod && ownUser == s.doc.sessionId
  ensures [answer P12] isType(r, "*operations.FaveGetCollectionsOK") || isType(r, "*operations.FaveGetCollectionsBadRequest")
  ensures [sound P12] isType(r, "*operations.FaveGetCollectionsOK") ==> forall i int :: {answers(unbox(r, "*operations.FaveGetCollectionsOK"))[i]} 0 <= i < len(answers(unbox(r, "*operations.FaveGetCollectionsOK"))) ==> answers(unbox(r, "*operations.FaveGetCollectionsOK"))[i] != nil && select(listed, ns(answers(unbox(r, "*operations.FaveGetCollectionsOK"))[i].Name))
  ensures [complete P12] isType(r, "*operations.FaveGetCollectionsOK") ==> forall k string :: {select(listed, k)} select(listed, k) && prefixof("fave_", k) ==> exists i int :: {at(i)} at(i) && 0 <= i < len(answers(unbox(r, "*operations.FaveGetCollectionsOK"))) && ns(answers(unbox(r, "*operations.FaveGetCollectionsOK"))[i].Name) == k
  inv <i int, m ~[]*models.Collection, d ~[]*document.Collection> len(m) == len(d) && i < len(m) && (forall k int :: {m[k]} {d[k]} 0 <= k <= i ==> m[k] != nil && allocated(m[k]) && m[k].Name == d[k].Name)
func Handler.GetDocumentsHandlerFunc(s, request) (r)
  presumes [client] usable(s)
  modifies anymap("map[string]interface{}")
  ensures [answer P12] isType(r, "*operations.GetDocumentsOK") || isType(r, "*operations.GetDocumentsBadRequest") || isType(r, "*operations.FaveGetNearestDocumentsBadRequest")
  ensures [refused P12] request.Collection == "" ==> isType(r, "*operations.GetDocumentsBadRequest")
  ensures [payload P12] isType(r, "*operations.GetDocumentsOK") ==> answers(unbox(r, "*operations.GetDocumentsOK")) != nil
