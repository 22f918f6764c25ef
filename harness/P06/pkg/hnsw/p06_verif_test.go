package hnsw

//use: mem hnswsup

import (
	"fmt"
	"math"
	"testing"

	"github.com/weaviate/weaviate/adapters/repos/db/helpers"
)

type p06case struct {
	Metric        string
	Dim, N, Ef    int
	MaxConn       int
	Vecs          [][]float32
	Deleted       []uint64
	Allowed       []uint64
	NilAllow      bool
	Query         []float32
	Max           float32
	Limit         int64
	Distance      bool
	Levels, Small bool
}

func (c *p06case) check(h *vh, key string, ids []uint64, dists []float32, err error, slack float64) {
	if err != nil {
		h.fail(key+"-error", c, "search failed: %v", err)
		return
	}
	if len(ids) != len(dists) {
		h.fail(key+"-aligned", c, "%d ids, %d distances", len(ids), len(dists))
		return
	}
	gone, allowed, seen := map[uint64]bool{}, map[uint64]bool{}, map[uint64]bool{}
	for _, d := range c.Deleted {
		gone[d] = true
	}
	for _, a := range c.Allowed {
		allowed[a] = true
	}
	for i, id := range ids {
		if seen[id] {
			h.fail(key+"-distinct", c, "id %d twice: %v", id, ids)
		}
		seen[id] = true
		if float64(dists[i]) > float64(c.Max)+slack {
			h.fail(key+"-bound", c, "distance %v exceeds the bound %v", dists[i], c.Max)
		}
		if i > 0 && dists[i] < dists[i-1] {
			h.fail(key+"-ascending", c, "not ascending: %v", dists)
		}
		if id >= uint64(c.N) {
			h.fail(key+"-exists", c, "id %d was never added", id)
			continue
		}
		if gone[id] {
			h.fail(key+"-deleted", c, "deleted id %d", id)
		}
		if !c.NilAllow && !allowed[id] {
			h.fail(key+"-allowed", c, "id %d not allowed", id)
		}
		if r := refDist(c.Metric, c.Vecs[id], c.Query); !near(float64(dists[i]), r) {
			h.fail(key+"-distance", c, "id %d: distance %v, metric says %v", id, dists[i], r)
		}
	}
	if c.Small {
		for id := 0; id < c.N; id++ {
			u := uint64(id)
			if gone[u] || !c.NilAllow && !allowed[u] {
				continue
			}
			r := refDist(c.Metric, c.Vecs[id], c.Query)
			if r < float64(c.Max)-1e-4*(1+math.Abs(r)) && !seen[u] {
				h.fail(key+"-complete", c, "id %d at distance %v is within %v but missing from %v", id, r, c.Max, ids)
				return
			}
		}
	}
}

func (c *p06case) run(h *vh) {
	uc := UserConfig{MaxConnections: c.MaxConn, EFConstruction: c.N + 40, EF: c.N + 40, FlatSearchCutoff: 0}
	o := idxOpt{prov: provOf(c.Metric), uc: uc}
	if c.Levels {
		k := 0
		o.rand = func() float64 { k++; return []float64{0.9, 0.5, 0.01, 0.7, 0.2, 0.0005, 0.6}[k%7] }
	}
	x := newIdx(o)
	defer closeIdx(x)
	for i, v := range c.Vecs {
		if err := x.Add(uint64(i), append([]float32{}, v...)); err != nil {
			h.fail("add", c, "Add(%d): %v", i, err)
			return
		}
	}
	if err := x.Flush(uint64(c.N)); err != nil {
		h.fail("flush", c, "%v", err)
		return
	}
	if !c.Small && h.rng.Intn(2) == 0 {
		for i := 0; i < c.N; i++ {
			if uint64(i) != x.entryPointID && h.rng.Intn(4) == 0 {
				c.Deleted = append(c.Deleted, uint64(i))
			}
		}
		x.Delete(c.Deleted...)
	}
	var al helpers.AllowList
	if !c.NilAllow {
		al = allowOf(c.Allowed...)
	}
	q := append([]float32{}, c.Query...)
	if c.Distance {
		ids, dists, err := x.SearchByVectorDistance(q, c.Max, c.Limit, al)
		c.check(h, "bydistance", ids, dists, err, 2e-6)
		if lim := int64(100); c.Limit >= 0 {
			if c.Limit > lim {
				lim = c.Limit
			}
			if int64(len(ids)) > lim {
				h.fail("bydistance-limit", c, "%d results, limit %d", len(ids), c.Limit)
			}
		}
	} else {
		ids, dists, err := x.KnnSearchByVectorMaxDist(q, c.Max, c.Ef, al)
		c.check(h, "maxdist", ids, dists, err, 0)
	}
}

func TestVerifWithin(t *testing.T) {
	h := vstart(t, "random indexes (4 metrics, dimensions 1-6, up to 60 vectors, half of them small enough to be fully linked), random bounds (among them exact distances, zero and negative), allow lists, deletions; both distance-bounded searches checked for bound, order, alignment, distance and, on fully linked indexes, completeness")
	for i := 0; i < h.n(250) && h.more(); i++ {
		r := h.rng
		c := &p06case{Metric: []string{"l2", "cosine", "dot", "manhattan"}[r.Intn(4)], Dim: 1 + r.Intn(6), MaxConn: 2 + r.Intn(12), Levels: r.Intn(2) == 0, Small: r.Intn(2) == 0, Distance: r.Intn(3) == 0}
		c.N = 1 + r.Intn(60)
		c.Ef = 1 + r.Intn(80)
		if c.Small {
			c.MaxConn = 8 + r.Intn(24)
			c.N = 1 + r.Intn(c.MaxConn)
			c.Ef = c.N + r.Intn(50)
		}
		for k := 0; k < c.N; k++ {
			c.Vecs = append(c.Vecs, rvec(r, c.Dim))
		}
		c.Query = rvec(r, c.Dim)
		if r.Intn(3) == 0 {
			c.Query = append([]float32{}, c.Vecs[r.Intn(c.N)]...)
		}
		bf := bruteForce(c.Metric, map[uint64][]float32{0: c.Vecs[r.Intn(c.N)]}, c.Query, nil)
		switch r.Intn(4) {
		case 0:
			c.Max = 0
		case 1:
			c.Max = float32(bf[0].d)
		case 2:
			c.Max = float32(r.NormFloat64() * 3)
		default:
			c.Max = 1000
		}
		c.NilAllow = r.Intn(2) == 0
		if !c.NilAllow {
			for k := 0; k < c.N; k++ {
				if r.Intn(2) == 0 {
					c.Allowed = append(c.Allowed, uint64(k))
				}
			}
		}
		c.Limit = []int64{-1, 0, 10, 100, 5000}[r.Intn(5)]
		h.try("within", c, func() { c.run(h) })
		h.eval(fmt.Sprint(c.Metric, c.N, c.Max, c.NilAllow, c.Small, c.Distance, c.Limit), true)
	}
}

func TestVerifWithinMany(t *testing.T) {
	h := vstart(t, "a 1500-vector index of which 100 to 1300 lie within the bound: results stay within the bound and below the limit")
	r := h.rng
	c := &p06case{Metric: "l2", Dim: 2, N: 1500, MaxConn: 8}
	x := newIdx(idxOpt{prov: provOf("l2"), uc: UserConfig{MaxConnections: 8, EFConstruction: 32, EF: 64}})
	defer closeIdx(x)
	for i := 0; i < c.N; i++ {
		v := []float32{float32(r.NormFloat64()), float32(r.NormFloat64())}
		c.Vecs = append(c.Vecs, v)
		if err := x.Add(uint64(i), append([]float32{}, v...)); err != nil {
			h.fail("add", nil, "%v", err)
			return
		}
	}
	x.indexCache.Resize(100000)
	if err := x.nodes.KVPut(x.className, countKey, []byte(`{"count":1500}`)); err != nil {
		h.fail("flush", nil, "%v", err)
		return
	}
	bounds := []float32{0.1, 1, 4}
	if _, ds, err := x.SearchByVector([]float32{0, 0}, 1300, nil); err == nil {
		for _, j := range []int{98, 99, 100, 1098, 1099, 1100} { // bounds at the edges of pages
			if j < len(ds) {
				bounds = append(bounds, ds[j])
			}
		}
	}
	for _, lim := range []int64{-1, 50, 100, 1100, 20000} {
		for _, m := range bounds {
			ids, dists, err := x.SearchByVectorDistance([]float32{0, 0}, m, lim, nil)
			in := map[string]any{"limit": lim, "max": m}
			if err != nil || len(ids) != len(dists) {
				h.fail("many", in, "%v %d %d", err, len(ids), len(dists))
				continue
			}
			for i := range ids {
				if float64(dists[i]) > float64(m)+2e-6 || !near(float64(dists[i]), refDist("l2", c.Vecs[ids[i]], []float32{0, 0})) {
					h.fail("many-bound", in, "id %d dist %v", ids[i], dists[i])
				}
			}
			if lim >= 0 && int64(len(ids)) > max(lim, 100) {
				h.fail("many-limit", in, "%d results", len(ids))
			}
			n := 0
			for _, v := range c.Vecs {
				if refDist("l2", v, []float32{0, 0}) <= float64(m) {
					n++
				}
			}
			if lim < 0 && len(ids) < n/2 {
				h.fail("many-found", in, "%d of %d found", len(ids), n)
			}
			h.eval(in, len(ids) > 0)
		}
	}
}
