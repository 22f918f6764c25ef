package hnsw
pkgalias ent github.com/weaviate/weaviate/entities/vectorindex/hnsw

// ---- configuration
// what a JSON number literal means (encoding/json)
ufun numInt(String) Int
ufun numErr(String) Int
extern json.Number.Int64(n) (v, err)
  ensures err == numErr(n) && v == numInt(n)
macro hasKey(m, key) = m != nil && key in dom(m)
macro mapOf(x) = unbox(x, "map[string]interface{}")
macro isMap(x) = isType(x, "map[string]interface{}") && mapOf(x) != nil
macro clampInt(f) = (if f >= 9223372036854775808.0 then 9223372036854775807 else toint(f))
macro numOf(v) = (if isType(v, "json.Number") then (if numErr(unbox(v, "json.Number")) == nil then numInt(unbox(v, "json.Number")) else 9223372036854775807) else (if isType(v, "float64") then clampInt(unbox(v, "float64")) else 0))
// the value of an optional number, boolean and string of a configuration map
macro intOf(m, key, default) = (if hasKey(m, key) then numOf(m[key]) else default)
macro boolOf(m, key, default) = (if hasKey(m, key) && isType(m[key], "bool") then unbox(m[key], "bool") else default)
macro strOf(m, key, default) = (if hasKey(m, key) && isType(m[key], "string") then unbox(m[key], "string") else default)

macro pqDefaults(q) = !q.Enabled && !q.BitCompression && q.Segments == 0 && q.Centroids == 256 && q.Encoder.Type == "kmeans" && q.Encoder.Distribution == "log-normal"
macro defaults(c) = c.MaxConnections == 64 && c.EFConstruction == 128 && c.CleanupIntervalSeconds == 300 && c.VectorCacheMaxObjects == 1000000000000 && c.EF == -1 && c.DynamicEFFactor == 8 && c.DynamicEFMax == 500 && c.DynamicEFMin == 100 && !c.Skip && c.FlatSearchCutoff == 40000 && c.Distance == "cosine" && pqDefaults(c.PQ)

func UserConfig.SetDefaults(c)
  modifies *c
  ensures [defaults P14] defaults(c)
func NewDefaultUserConfig() (c)
  ensures [defaults P14] defaults(c)
func UserConfig.validate(c) (err)
  ensures [valid P14] err == nil <==> c.MaxConnections >= 4 && c.EFConstruction >= 4
func ValidEncoder(s) (r, err)
  ensures [known P14] err == nil <==> s == "tile" || s == "kmeans"
func ValidEncoderDistribution(s) (r, err)
  ensures [known P14] err == nil <==> s == "log-normal" || s == "normal"

macro encOf(q) = mapOf(q["encoder"])
macro hasEnc(q) = hasKey(q, "encoder") && isType(q["encoder"], "map[string]interface{}")
func parsePQMap(in, pq) (err)
  expand
  requires pq != nil && allocated(pq)
  modifies *pq
  ensures [absent P14] !(hasKey(in, "pq") && isType(in["pq"], "map[string]interface{}")) ==> err == nil && pq.Enabled == old(pq.Enabled) && pq.Segments == old(pq.Segments) && pq.Centroids == old(pq.Centroids) && pq.BitCompression == old(pq.BitCompression) && pq.Encoder.Type == old(pq.Encoder.Type) && pq.Encoder.Distribution == old(pq.Encoder.Distribution)
  ensures [set P14] err == nil && hasKey(in, "pq") && isType(in["pq"], "map[string]interface{}") ==> pq.Enabled == boolOf(mapOf(in["pq"]), "enabled", old(pq.Enabled)) && pq.BitCompression == boolOf(mapOf(in["pq"]), "bitCompression", old(pq.BitCompression)) && pq.Segments == intOf(mapOf(in["pq"]), "segments", old(pq.Segments)) && pq.Centroids == intOf(mapOf(in["pq"]), "centroids", old(pq.Centroids))
  ensures [encoder P14] err == nil && hasKey(in, "pq") && isType(in["pq"], "map[string]interface{}") && hasEnc(mapOf(in["pq"])) ==> pq.Encoder.Type == strOf(encOf(mapOf(in["pq"])), "type", old(pq.Encoder.Type)) && pq.Encoder.Distribution == strOf(encOf(mapOf(in["pq"])), "distribution", old(pq.Encoder.Distribution))
  ensures [known P14] old(pq.Encoder.Type == "tile" || pq.Encoder.Type == "kmeans") ==> pq.Encoder.Type == "tile" || pq.Encoder.Type == "kmeans"
  ensures [knowndist P14] old(pq.Encoder.Distribution == "normal" || pq.Encoder.Distribution == "log-normal") ==> pq.Encoder.Distribution == "normal" || pq.Encoder.Distribution == "log-normal"

func ParseAndValidateConfig(input) (r, err)
  ensures [valid P14] err == nil ==> isType(r, "UserConfig") && unbox(r, "UserConfig").MaxConnections >= 4 && unbox(r, "UserConfig").EFConstruction >= 4
  ensures [none P14] input == nil ==> err == nil && defaults(unbox(r, "UserConfig"))
  ensures [kind P14] input != nil && !isMap(input) ==> err != nil
  ensures [graph P14] err == nil && isMap(input) ==> unbox(r, "UserConfig").MaxConnections == intOf(mapOf(input), "maxConnections", 64) && unbox(r, "UserConfig").EFConstruction == intOf(mapOf(input), "efConstruction", 128) && unbox(r, "UserConfig").CleanupIntervalSeconds == intOf(mapOf(input), "cleanupIntervalSeconds", 300)
  ensures [search P14] err == nil && isMap(input) ==> unbox(r, "UserConfig").EF == intOf(mapOf(input), "ef", 0 - 1) && unbox(r, "UserConfig").DynamicEFFactor == intOf(mapOf(input), "dynamicEfFactor", 8) && unbox(r, "UserConfig").DynamicEFMax == intOf(mapOf(input), "dynamicEfMax", 500) && unbox(r, "UserConfig").DynamicEFMin == intOf(mapOf(input), "dynamicEfMin", 100)
  ensures [other P14] err == nil && isMap(input) ==> unbox(r, "UserConfig").VectorCacheMaxObjects == intOf(mapOf(input), "vectorCacheMaxObjects", 1000000000000) && unbox(r, "UserConfig").FlatSearchCutoff == intOf(mapOf(input), "flatSearchCutoff", 40000) && unbox(r, "UserConfig").Skip == boolOf(mapOf(input), "skip", false) && unbox(r, "UserConfig").Distance == strOf(mapOf(input), "distance", "cosine")
  ensures [encoder P14] err == nil ==> (unbox(r, "UserConfig").PQ.Encoder.Type == "tile" || unbox(r, "UserConfig").PQ.Encoder.Type == "kmeans") && (unbox(r, "UserConfig").PQ.Encoder.Distribution == "normal" || unbox(r, "UserConfig").PQ.Encoder.Distribution == "log-normal")
  ensures [accepted P14] isMap(input) && unbox(r, "UserConfig").MaxConnections >= 4 && unbox(r, "UserConfig").EFConstruction >= 4 && err != nil ==> hasKey(mapOf(input), "pq") || (exists k string :: {k in dom(mapOf(input))} k in dom(mapOf(input)) && isType(mapOf(input)[k], "json.Number") && numErr(unbox(mapOf(input)[k], "json.Number")) != nil)

// ---- internal configuration
ghost problems (Array Int Int)
extern errorcompounder.ErrorCompounder.Addf(ec, msg, args)
  modifies ghost(problems)
  update problems := store(problems, ec, 1)
extern errorcompounder.ErrorCompounder.ToError(ec) (err)
  ensures err == nil <==> select(problems, ec) != 1
func Config.Validate(c) (err)
  modifies ghost(problems)
  presumes [none] forall e int :: {select(problems, e)} select(problems, e) == 0
  ensures [valid P14] err == nil <==> c.ID != "" && c.RootPath != "" && c.MakeCommitLoggerThunk != nil && c.VectorForIDThunk != nil && c.DistanceProvider != nil

// not verified here: compression leaves the settings of searches alone
func hnsw.Compress(h, segments, centroids, bits, enc, dist) (err)
  trusted
  modifies h.compressed, h.pq, h.compressedStore
extern cache.updateMaxSize(c, n)
  ignore
macro newCfg(u) = unbox(u, "ent.UserConfig")
func hnsw.UpdateUserConfig(h, updated, callback) (err)
  requires h != nil && h.cache != nil && callback != nil
  opt callbacks=harmless
  modifies h.ef, h.efMin, h.efMax, h.efFactor, h.flatSearchCutoff, h.compressed, h.pq, h.compressedStore
  ensures [applied P14] isType(updated, "ent.UserConfig") ==> h.ef == newCfg(updated).EF && h.efMin == newCfg(updated).DynamicEFMin && h.efMax == newCfg(updated).DynamicEFMax && h.efFactor == newCfg(updated).DynamicEFFactor && h.flatSearchCutoff == newCfg(updated).FlatSearchCutoff
  ensures [refused P14] !isType(updated, "ent.UserConfig") ==> err != nil && h.ef == old(h.ef) && h.efMin == old(h.efMin) && h.efMax == old(h.efMax) && h.efFactor == old(h.efFactor) && h.flatSearchCutoff == old(h.flatSearchCutoff)
macro sameGraph(a, b) = a.EFConstruction == b.EFConstruction && a.MaxConnections == b.MaxConnections && a.CleanupIntervalSeconds == b.CleanupIntervalSeconds
func ValidateUserConfigUpdate(initial, updated) (err)
  ensures [immutable P14] err == nil <==> isType(initial, "ent.UserConfig") && isType(updated, "ent.UserConfig") && sameGraph(newCfg(initial), newCfg(updated))
  inv <i int> i >= 0 ==> newCfg(initial).EFConstruction == newCfg(updated).EFConstruction
  inv <i int> i >= 1 ==> newCfg(initial).EFConstruction == newCfg(updated).EFConstruction
  inv <i int> i >= 2 ==> newCfg(initial).EFConstruction == newCfg(updated).EFConstruction
  inv <i int> i >= 0 ==> newCfg(initial).MaxConnections == newCfg(updated).MaxConnections
  inv <i int> i >= 1 ==> newCfg(initial).MaxConnections == newCfg(updated).MaxConnections
  inv <i int> i >= 2 ==> newCfg(initial).MaxConnections == newCfg(updated).MaxConnections
  inv <i int> i >= 0 ==> newCfg(initial).CleanupIntervalSeconds == newCfg(updated).CleanupIntervalSeconds
  inv <i int> i >= 1 ==> newCfg(initial).CleanupIntervalSeconds == newCfg(updated).CleanupIntervalSeconds
  inv <i int> i >= 2 ==> newCfg(initial).CleanupIntervalSeconds == newCfg(updated).CleanupIntervalSeconds

// ---- the index as configured
// a pool is classified by what its New function makes (proved for newPqMinPool$1 etc.)
func newPqMinPool(n) (r)
  requires 0 <= n < 1000000000000
  ensures [made P05] r != nil && fresh(r)
  assumes poolKind(r.pool) == 1
func newPqMaxPool(n) (r)
  requires 0 <= n < 1000000000000
  ensures [made P05] r != nil && fresh(r)
  assumes poolKind(r.pool) == 2
func newPqMinWithIndexPool(n) (r)
  requires 0 <= n < 1000000000000
  ensures [made P07] r != nil && fresh(r)
  assumes poolKind(r.pool) == 3
func newPools(n) (p)
  requires 0 <= n < 1000000000000
  ensures [made P05] p != nil && fresh(p) && p.visitedLists != nil && p.pqCandidates != nil && p.pqResults != nil && p.pqHeuristic != nil
  ensures [kinds P05] poolKind(p.pqCandidates.pool) == 1 && poolKind(p.pqResults.pool) == 2 && poolKind(p.pqHeuristic.pool) == 3
  ensures [lists P05] okPool(p.visitedLists)
func newShardedLockCache(vecForID, maxSize, logger, norm, interval) (r)
  presumes [shards] shardFactor == 512
  ensures [made P15] r != nil && fresh(r) && r.vectorForID == vecForID && r.maxSize == maxSize && r.normalizeOnRead == norm
  ensures [empty P15] okVecs(r) && okShards(r)
  inv <q ~*shardedLockCache> okVecs(q)
func newCompressedShardedLockCache(maxSize, logger) (r)
  ensures [made P14] r != nil && fresh(r)
extern lru.NewWithEvict(size, onEvict) (r, err)
  ensures err == nil ==> r != nil && fresh(r)
func New(cfg, uc, kv) (ix, err)
  presumes [none] forall e int :: {select(problems, e)} select(problems, e) == 0
  presumes [small] 0 <= uc.MaxConnections < 500000
  opt callbacks=harmless
  modifies ghost(problems)
  ensures [graph P14] err == nil ==> ix != nil && ix.maximumConnections == uc.MaxConnections && ix.maximumConnectionsLayerZero == 2 * uc.MaxConnections && ix.efConstruction == uc.EFConstruction
  ensures [search P14] err == nil ==> ix.ef == uc.EF && ix.efMin == uc.DynamicEFMin && ix.efMax == uc.DynamicEFMax && ix.efFactor == uc.DynamicEFFactor && ix.flatSearchCutoff == uc.FlatSearchCutoff
  ensures [invalid P14] cfg.ID == "" || cfg.RootPath == "" || cfg.MakeCommitLoggerThunk == nil || cfg.VectorForIDThunk == nil || cfg.DistanceProvider == nil ==> err != nil
  ensures [usable P05] err == nil ==> okIndex(ix)
  ensures [store P11] err == nil ==> ix.className == cfg.ClassName && ix.nodes == kv
extern cyclemanager.New(ticker, fn) (r)
  ensures r != nil
extern logrus.New() (r)
  ensures r != nil && fresh(r)
// the store and the table an index works on, for its users
macro indexOn(ix, kv, table) = isType(ix, "*hnsw") && unbox(ix, "*hnsw").className == table && unbox(ix, "*hnsw").nodes == kv
