NA = {}
HOOKS = None
P = []
def prop(id, title, statement, over, qtext, why, files, mech, level_note, state=None, observe=None, **k):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])], observe_at=observe or [], hook_needed=None),
        level_note=level_note, **k))

prop("P01", "Priority queues always yield the extreme item and lose or invent none",
 "A min (max) priority queue always shows and removes an item of least (greatest) distance among the items it holds. Whatever sequence of insertions, removals and resets is performed, its content is exactly the multiset of items inserted and not yet removed since the last reset. This holds for the plain and for the index-carrying queue.",
 ["inputs", "histories"], "every sequence of operations, every distance value other than NaN, every queue size",
 "the tests drain one six-element queue per direction and never touch the index-carrying queue; the order must hold for every heap shape",
 ["pkg/hnsw/priorityqueue/queue.go", "pkg/hnsw/priorityqueue/queue_with_index.go"],
 [("sift-up on insertion", "pkg/hnsw/priorityqueue/queue.go Insert"), ("sift-down on removal", "pkg/hnsw/priorityqueue/queue.go heapify")],
 "Every function of both queues is proved against heap-order and multiset contracts for all inputs and sizes, including recursion and loops. Trusted: the gover VC generator, SSA construction, z3/cvc5; NaN distances excluded.",
 state=[("items", "implicit binary heap", "pkg/hnsw/priorityqueue/queue.go")], observe=["Pop", "Top", "Len"])
prop("P02", "Visited sets are exact across marking, growth, reset and pooled reuse",
 "A visited set reports an id as visited if and only if it was marked since the set was created, reset or borrowed from its pool, for every id, also after the set has grown and after any number of resets. Two sets borrowed from a pool at the same time never influence each other.",
 ["inputs", "histories"], "every sequence of mark, query, reset, borrow and return, every list size and id",
 "the tests use a handful of ids on lists of a few slots; exactness must hold for every id, growth step and wrap-around of the version marker",
 ["pkg/hnsw/visited/list_set.go", "pkg/hnsw/visited/pool.go"],
 [("version marker in slot 0", "pkg/hnsw/visited/list_set.go Reset"), ("growth", "pkg/hnsw/visited/list_set.go Visit, growth"), ("reset before pooling", "pkg/hnsw/visited/pool.go Return")],
 "All list and pool functions are proved for all inputs (ids below 1e11, lists below 1e12 slots). The pool's lists are proved to be touched only under its mutex, which is released on every path; that a held mutex excludes other goroutines is the semantics of sync.Mutex (a bounded concurrent run exercises it).",
 state=[("set", "slot 0 holds the version marker, slot id+1 the version at which id was marked", "pkg/hnsw/visited/list_set.go")], observe=["Visited", "Borrow"])
prop("P03", "Every distance metric returns its defined value or refuses mismatched vectors",
 "For two vectors of equal length, the cosine, dot-product, squared-Euclidean, Manhattan and Hamming distances equal their mathematical definitions (up to rounding), identically through all the ways of computing them, and the geo distance of two coordinates is their great-circle distance. For vectors of different lengths (or, for geo, not two-dimensional) an error is returned instead of a number.",
 ["inputs"], "all vectors of all lengths",
 "the tests evaluate a few small vectors; the value must be right for every length and component, on the portable and the accelerated path",
 ["pkg/hnsw/distancer/cosine_dist.go", "pkg/hnsw/distancer/dot_product.go", "pkg/hnsw/distancer/l2.go", "pkg/hnsw/distancer/manhattan.go", "pkg/hnsw/distancer/hamming.go", "pkg/hnsw/distancer/geo_spatial.go"],
 [("per-metric kernels", "pkg/hnsw/distancer/*.go"), ("length check before the kernel", "SingleDist and Distance of every provider")],
 "Every portable kernel and every provider method is proved equal to a fold over the components for all lengths. Assumed: the two assembly kernels (dot product, squared Euclidean) compute the same fold - covered by a bounded comparison with float64; the haversine value is bounded too, only its error behaviour is proved. Floating point is an uninterpreted ordered structure.",
 out_of_reach=["assembly kernels asm.Dot and asm.L2: bounded comparison against a float64 reference", "haversine value of geoDist: bounded comparison"], observe=["SingleDist", "Distance", "Step", "Wrap"])
prop("P04", "Normalisation yields a fresh unit vector and keeps zero vectors zero",
 "Normalising a vector returns a new vector of the same length in which every component is the original divided by the Euclidean length, leaving the input untouched. A vector of length zero is returned as zeroes, never as an invalid number.",
 ["inputs"], "all vectors of all lengths",
 "no test in the repository normalises anything",
 ["pkg/hnsw/distancer/normalize.go"], [("two passes: sum of squares, then division", "pkg/hnsw/distancer/normalize.go Normalize")],
 "Proved for all lengths and components over an uninterpreted ordered float structure; rounding error is only bounded by testing.", observe=["Normalize"])

prop("P05", "k-nearest search returns true, sorted, distinct, live, allowed results",
 "Every k-nearest-neighbour search on an index returns at most k ids paired with distances: the distances are the true distances of those vectors to the query (to the normalised query under cosine), in ascending order, no id occurs twice, no id is tombstoned at the time of the answer, and with an allow list every id is on it. When the allow list is small enough for the exhaustive search, the answer is exactly the k nearest allowed live vectors.",
 ["inputs", "histories"], "every index content, query vector, k >= 0 and allow list, and every sequence of earlier searches on the same index",
 "the tests search a few hundred-vector indexes with one query each; the guarantee must hold for every graph shape, query, k and allow list",
 ["pkg/hnsw/search.go", "pkg/hnsw/flat_search.go", "pkg/hnsw/pools.go", "pkg/hnsw/index.go"],
 [("best-first layer search with bounded result heap", "pkg/hnsw/search.go searchLayerByVector"), ("layer descent and result extraction", "pkg/hnsw/search.go knnSearchByVector"), ("exhaustive search for small allow lists", "pkg/hnsw/flat_search.go flatSearch")],
 "Proved from SearchByVector down to the heaps, visited sets and node lookup, for all inputs. Assumed: lookups of the stored node and its JSON decoding are deterministic (same id, same vector) while a search runs; state guarded by a held lock does not change under it (that it is only touched under the lock is proved for tombstones and link lists); the index is not in compressed mode. Recall of the approximate search is not claimed, only the soundness of its answers.",
 state=[("resultsMaxPool, candidates", "per-search heaps", "pkg/hnsw/pools.go"), ("tombstones", "deleted ids", "pkg/hnsw/index.go")], observe=["SearchByVector"])
prop("P06", "Distance-bounded searches return only true matches within the bound",
 "A search by maximum distance returns only ids whose true distance to the query is within the requested bound (plus 1e-6 for the paging search), each paired with that distance, none of them tombstoned before the search and all of them on the allow list when one is given; a single-pass search returns them in ascending order without duplicates. The paging search returns no more than the larger of 100 and the caller's limit.",
 ["inputs", "histories"], "every index content, query, bound, limit and allow list",
 "the tests use one fixed data set and bound; paging, offsets and early termination must be right for every size of answer",
 ["pkg/hnsw/search.go"],
 [("paging with growing limits", "pkg/hnsw/search.go SearchByVectorDistance, searchByDistParams"), ("single pass with heap", "pkg/hnsw/search.go KnnSearchByVectorMaxDist")],
 "Proved for all inputs over the contracts of P05. Assumed as P05. Completeness (every vector within the bound is found) depends on the approximate search and is only tested on fully connected small indexes.",
 state=[("searchByDistParams", "offset, limit and total of the paging search", "pkg/hnsw/search.go")], observe=["SearchByVectorDistance", "KnnSearchByVectorMaxDist"])
prop("P07", "Insertion keeps the neighbour graph bounded, linked back and well-formed",
 "After any sequence of insertions every node of the index has exactly one link list per level up to its own; no list is longer than the configured maximum (M above level 0, 2M on level 0), contains the node itself, or contains an id twice; every link leads to an existing node that reaches that level. A new node links to at least one and at most M nodes on every level it shares with older nodes (to all of them while fewer than M exist), and each of them links back to it or, if its list was full, keeps the neighbours chosen by the selection rule. That rule never chooses a denied id, chooses at most the maximum, keeps everything when there is room, always keeps the nearest, and keeps a candidate only if it is no closer to an already chosen one than to the node itself. The entrypoint is always a node of the highest level, and lists of unrelated nodes do not change.",
 ["inputs", "histories"], "every sequence of insertions of distinct ids, every vector, level draw, M and ef",
 "the tests build a few indexes and look at search results only; none looks at the graph, and bounds must hold after every insertion in every graph shape",
 ["pkg/hnsw/insert.go", "pkg/hnsw/neighbor_connections.go", "pkg/hnsw/heuristic.go", "pkg/hnsw/vertex.go"],
 [("linking and pruning", "pkg/hnsw/neighbor_connections.go doAtLevel, connectNeighborAtLevel"), ("selection rule", "pkg/hnsw/heuristic.go selectNeighborsHeuristic"), ("link lists", "pkg/hnsw/vertex.go"), ("entrypoint promotion", "pkg/hnsw/insert.go insert")],
 "Proved from Add down to the link lists and the selection rule: one list per level, the length bounds, distinct out-links, the selection rule (count, subset, deny list, diversity) and the entrypoint update, for all inputs. Assumed: two nodes never share a link list; ids are inserted once; guarded state does not change while its lock is held (lock discipline for link lists, levels and the entrypoint is proved). Bounded only: back links, no self links, target levels, exact result of pruning (checked against a reference on random insertion sequences). Concurrent insertions are outside.",
 state=[("vertex.Connections", "links per level", "pkg/hnsw/vertex.go"), ("entryPointID, currentMaximumLayer", "entry of every search", "pkg/hnsw/index.go")], observe=["Add", "nodeByID"])
prop("P08", "Deleted ids never come back, before, during or after cleanup",
 "Once Delete has returned, no search returns any of the deleted ids, however many searches, insertions of other ids, flushes and cleanups (complete, interrupted or failing) follow. Cleanup forgets a tombstone only when the node is gone from the cache and from the store, touches no tombstone it was not asked for, and leaves every other node stored with its vector. After a complete cleanup no remaining stored node links to a deleted one, no lock stays held, and the index goes on accepting insertions, deletions and searches.",
 ["histories", "fault_sequences"], "every interleaving of deletions, cleanups, insertions, flushes and searches on one index, every failing storage operation during cleanup",
 "the tests delete from one fixed index and never fail or interrupt a cleanup",
 ["pkg/hnsw/delete.go", "pkg/hnsw/search.go", "pkg/hnsw/flat_search.go", "pkg/hnsw/maintainance.go"],
 [("tombstones", "pkg/hnsw/delete.go addTombstone, hasTombstone"), ("cleanup: reassign, replace entrypoint, remove", "pkg/hnsw/delete.go cleanUpTombstonedNodes, removeTombstonesAndNodes"), ("filter in every search", "pkg/hnsw/search.go, pkg/hnsw/flat_search.go")],
 "Proved for all inputs: Delete marks all ids and never unmarks one; every search filters marked ids; cleanup unmarks an id only after removing it from cache and store, and only ids it copied; the deny list is exactly the tombstones; a new entrypoint is never on the deny list. Assumed: the contracts of the LRU cache and of the key-value store. Also proved: locks are released on every path, never taken twice, and tombstones, link lists and entrypoint are written only under their locks. Bounded only: links of remaining nodes after cleanup. Tombstones are not persisted by the code and this is not claimed.",
 state=[("tombstones", "deleted ids not yet cleaned up", "pkg/hnsw/index.go")], observe=["Delete", "CleanUpTombstonedNodes", "SearchByVector"])
prop("P09", "A flushed index is restored exactly when it is reopened",
 "After Flush succeeded, an index reopened on the same store has the same nodes (id, level, links, vector), the same entrypoint and highest level and the same document count, and gives the same answers; repeating insert, flush and reopen any number of times loses nothing. A node is marked as stored only after it was stored, so a flush that failed can be repeated and then stores everything; a node that has to leave the cache before it was flushed is stored first, and nodes changed after a flush are written by the next one.",
 ["histories", "fault_sequences"], "every history of insertions, flushes, reopenings and cache evictions; every storage operation that fails",
 "the tests never reopen an index after more than one flush, never fill the cache and never fail a write",
 ["pkg/hnsw/insert.go", "pkg/hnsw/index.go", "pkg/hnsw/vertex.go", "pkg/hnsw/neighbor_connections.go"],
 [("flush of uncommitted nodes, entrypoint and count", "pkg/hnsw/insert.go Flush"), ("restart", "pkg/hnsw/insert.go LoadEntrypoint, GetDocCount"), ("lookup through cache and store", "pkg/hnsw/index.go nodeByID"), ("eviction", "pkg/hnsw/index.go New")],
 "Proved for all inputs: what is stored under a node's key decodes to that node's id and vector; a node is marked stored only if it was put; the entrypoint and count stored by a successful flush are the current ones and are what LoadEntrypoint and GetDocCount return; an evicted unstored node is put unless storage fails; a lookup yields the node asked for. Assumed: contracts of encoding/json, of the LRU cache and of the key-value store. Bounded only: equality of the whole restored index and repeated flush after failures.",
 state=[("vertex.Committed", "node is stored in its current form", "pkg/hnsw/vertex.go")], observe=["Flush", "LoadEntrypoint", "GetDocCount", "nodeByID"])
prop("P10", "Every added document is stored with a vector and id of its own, or reported",
 "When adding documents to a collection succeeds, every document of the request is stored with its properties, its id, and either no vector or exactly one vector of the index: the vector it came with, or the vector of its text. No two documents ever share a vector id, and none is given one that was used before, whatever was added, failed or restarted in between. If any document of the request could not be stored, the request reports an error. A nearest-document search never returns a document with a distance that belongs to another document, also while documents are being added.",
 ["inputs", "histories", "fault_sequences", "schedules"], "every sequence of batches, searches, restarts and storage failures, sequentially and concurrently",
 "the tests add the same file of documents to a fresh collection; ids after failures, restarts and concurrent additions are not covered",
 ["pkg/document/document.go", "pkg/hnsw/index.go", "adapters/handlers/documents.go"],
 [("ids counted on from the stored count", "pkg/document/document.go AddDocuments"), ("count stored with the index", "pkg/hnsw/index.go Flush, GetDocCount"), ("document of a vector", "pkg/document/document.go GetNearDocuments, hasIndexId")],
 "Proved for all batches: ids handed out are new and stay handed out whatever fails, every document of a successful request is put with the id and the components of its own vector, the count stored covers them, searches pair a document only with the distance of its own vector. Assumed: contracts of the fairOS document and key-value store and of encoding/json; property maps of one batch are distinct; ids and loaded indexes are proved to be touched only under the client's locks, that a held lock excludes others is sync's semantics (concurrency and restarts are exercised by a bounded run against the real store in memory).",
 out_of_reach=["interleavings of concurrent calls: bounded run", "the text that is vectorised (concatenation of the named properties): bounded run"],
 state=[("nextIds, count", "next vector id of a collection", "pkg/document/document.go, key count of the key-value table")], observe=["AddDocuments", "GetNearDocuments", "GetNearDocumentsByVector", "GetDocument"])
prop("P11", "Collections, pods and users stay separate; creations and deletions last",
 "Every operation on a collection works only on the tables of that collection in the pod and session that are open; no operation on one collection, pod or user changes or shows anything of another, also when names are equal or pods and users are switched. Without a login or an open pod an operation is refused and changes nothing. The list of collections is exactly the collections created and not deleted, each once with its indexes, also after a restart. A successful deletion removes the documents and the vectors and the name can be used again from empty; a deletion that fails is reported.",
 ["inputs", "histories", "fault_sequences"], "every sequence of logins, pod switches, creations, deletions, additions, searches, restarts and storage failures, every collection name",
 "the tests use one user, one pod and a few collections in one process",
 ["pkg/document/document.go"],
 [("namespaced tables", "pkg/document/document.go namespace"), ("indices of the open pod", "pkg/document/document.go Client.indices, leavePod"), ("creation and deletion", "pkg/document/document.go CreateCollection, DeleteCollection, GetCollections")],
 "Proved for all inputs: every call to the store names the tables, pod and session of the operation, every loaded vector index belongs to its collection in the open pod, refused operations touch nothing, a deletion that succeeds removed both tables and committed, the listing is sound, complete and without repetition, other collections' entries are unchanged. Assumed: contracts of the fairOS API; the index definitions in a listing and durability across restarts are exercised by a bounded run against the real store in memory.",
 out_of_reach=["index definitions of listed collections: bounded run", "durability of committed feeds (fairOS): bounded run"],
 state=[("indices, nextIds, pod, podInfo, sessionId", "what is open", "pkg/document/document.go Client")], observe=["Login", "OpenPod", "CreateCollection", "DeleteCollection", "GetCollections"])
prop("P12", "Requests get true answers, documents with their own distance, or an error",
 "Every request gets either the answer to exactly what was asked or an error response, and never crashes the server. A nearest-document search returns documents of that collection with their stored properties (numbers up to 2^53; a property named distance gives way to the distance) and their own distance to the query, none beyond the requested distance, ascending, at most as many as the limit when it is positive; a collection without vectors yields an empty answer. Looking a document up returns the document the store finds for exactly that collection, property and value, or an error. A request with a missing name, text, vector, document list or malformed document is refused and nothing is changed. The list of collections shows every collection with its string, number, map and list indexes. A request answered with success has been carried out.",
 ["inputs", "histories"], "every request body, every collection content, limit and distance",
 "the handlers have no tests; the document tests look at a handful of fixed queries",
 ["adapters/handlers/documents.go", "adapters/handlers/collections.go", "adapters/handlers/helpers.go", "pkg/document/document.go", "pkg/hnsw/search.go"],
 [("request validation and answers", "adapters/handlers/*.go"), ("nearest documents", "pkg/document/document.go GetNearDocuments, GetNearDocumentsByVector"), ("lookup", "pkg/document/document.go GetDocument")],
 "Proved for all requests: every handler returns one of its two response kinds without panicking, refusals happen exactly before anything is touched, the query searched is the one asked for, answers carry the documents' own distances, within bound, limit and order, a success was carried out, listings are complete. Assumed: contracts of the generated response types, encoding/json, the vector index (proved in P05, P06) and the fairOS store; limits up to 1e6. That properties survive storage and that lookups find an existing value is exercised by a bounded run.",
 out_of_reach=["matching of DocFind (fairOS) and preservation of properties through JSON: bounded run"],
 observe=["Handler methods", "GetNearDocuments", "GetNearDocumentsByVector", "GetDocument"])
prop("P15", "The vector cache is invisible except for speed",
 "For every id the vector cache returns the vector its source provides for that id (normalised when configured so) or the source's error, whether the vector was cached, preloaded, evicted or never seen, for ids of any size and for any interleaving with growth, deletion and eviction; asking for many ids gives each position its own id's vector and error. A failure is not cached, a deleted or dropped entry is fetched again, and once the number of cached vectors reaches the maximum the next maintenance empties the cache.",
 ["inputs", "histories", "schedules"], "every sequence (and concurrent mix) of get, multi-get, preload, delete, growth and eviction over ids below 1e12",
 "the tests preload a few small ids; growth, eviction and misses after deletion are not covered",
 ["pkg/hnsw/vector_cache.go", "pkg/hnsw/index.go"],
 [("sharded cache", "pkg/hnsw/vector_cache.go"), ("fallback to the stored node", "pkg/hnsw/index.go New")],
 "Proved for all ids and cache contents: every cached slot holds its own id's vector, preserved by get, multiGet, preload, delete, grow, replaceIfFull; returned vectors are the source's (normalised if configured); growth keeps all entries; no index out of range. Every slot is proved to be read under its shard's lock and written under it exclusively, the table replaced only under all of them, and all are released. Assumed: sync's semantics of those locks (a bounded stress run exercises concurrency); the source is a function of the id.",
 state=[("cache", "slot i holds the vector of id i or nil", "pkg/hnsw/vector_cache.go")], observe=["get", "multiGet", "preload", "delete"])
prop("P14", "Every accepted configuration is the one given, completed by the defaults",
 "Parsing an index configuration yields exactly the given value for every setting that is given and the documented default for every one that is not (numbers beyond the integer range are clamped to it); it is refused exactly when maxConnections or efConstruction is below 4, the quantizer encoder or distribution is unknown, a number is not one, or the input is not an object. A new index runs with exactly the accepted graph and search settings (2M links on level 0) and refuses an incomplete internal configuration. Updating a running index applies all its search settings; an update that changes a build-time setting (efConstruction, maxConnections, cleanup interval) is refused. The breadth of a search for k results is the configured ef, or, when ef is below 1, k times the factor held between the configured minimum and maximum, and never below k. For the server, an environment variable that is set overrides its setting, an empty or unset one leaves it alone, and only an absent Bee endpoint or stamp gets its default.",
 ["inputs", "configurations"], "every configuration object, every pair of configurations in an update, every environment and every k",
 "the tests parse a dozen configurations and cover neither numbers out of range nor the environment nor what the index does with the values",
 ["pkg/hnsw/user_config.go", "pkg/hnsw/config.go", "pkg/hnsw/config_update.go", "pkg/hnsw/index.go", "pkg/hnsw/search.go", "adapters/handlers/environment.go", "adapters/handlers/defaults.go", "pkg/hnsw/pq_config.go"],
 [("parsing and validation", "pkg/hnsw/user_config.go ParseAndValidateConfig"), ("update of a running index", "pkg/hnsw/config_update.go"), ("search breadth", "pkg/hnsw/search.go searchTimeEF, autoEfFromK"), ("environment", "adapters/handlers/environment.go FromEnv, adapters/handlers/defaults.go SetDefaults")],
 "Proved for all inputs: every parsed setting, acceptance and refusal, the constructor's settings, updates, the search breadth and the environment rules. Assumed: contracts of json.Number, the environment and the error collector; search settings within +-1e6/1e9; the compression step of an update is trusted to leave the search settings alone.",
 out_of_reach=["hnsw.Compress (trusted: product quantisation is not used by FaVe)"],
 state=[("ef, efMin, efMax, efFactor, flatSearchCutoff", "search settings of the running index", "pkg/hnsw/index.go")], observe=["ParseAndValidateConfig", "New", "UpdateUserConfig", "ValidateUserConfigUpdate", "FromEnv"])
prop("P16", "Text becomes exactly the vector its service returned, or an error",
 "A vectorizer is created only if its service answers the health request with status 200. Vectorising a text sends exactly that text and returns exactly the vector of the reply; a service that cannot be reached, a status other than 200, a torn or malformed reply and a reply without a vector are all errors and never a vector. The vector type keeps its components: its length, copy (independent of the original), equality and Euclidean distance are those of the components, and comparing vectors of different length is an error.",
 ["inputs", "fault_sequences"], "every text, every reply or failure of the service, all vectors of all lengths",
 "the repository has no test of the vectorizer or its vector type",
 ["pkg/vectorizer/rest/vectorizer.go", "pkg/vectorizer/vector.go"],
 [("health check", "pkg/vectorizer/rest/vectorizer.go NewVectorizer"), ("request and reply", "pkg/vectorizer/rest/vectorizer.go Corpi"), ("vector type", "pkg/vectorizer/vector.go")],
 "Every function is proved for all inputs over contracts of net/http and encoding/json: status, decoding errors, the query asked and the vector returned; vector operations for all lengths. Assumed: those library contracts; the request path is only covered by the bounded harness against a local service.",
 observe=["NewVectorizer", "Corpi", "Equal", "Distance", "ToArray"])
