package hnsw

//use: mem hnswsup

import (
	"fmt"
	"sync"
	"testing"

	"github.com/weaviate/weaviate/adapters/repos/db/helpers"
)

type p05case struct {
	Metric           string
	Dim, N, K, Ef    int
	MaxConn, EfC     int
	Cutoff           int
	IDs              []uint64
	Vecs             [][]float32
	Deleted, Allowed []uint64
	NilAllow, Levels bool
	Query            []float32
	ForbidFlat       bool
}

func checkKnn(h *vh, key string, c *p05case, ids []uint64, dists []float32, err error, vecs map[uint64][]float32, gone map[uint64]bool, exact bool) {
	if err != nil {
		h.fail(key+"-error", c, "search failed: %v", err)
		return
	}
	if len(ids) != len(dists) {
		h.fail(key+"-aligned", c, "%d ids, %d distances", len(ids), len(dists))
		return
	}
	if len(ids) > c.K {
		h.fail(key+"-at-most-k", c, "k=%d but %d results", c.K, len(ids))
	}
	allowed := map[uint64]bool{}
	for _, a := range c.Allowed {
		allowed[a] = true
	}
	seen := map[uint64]bool{}
	for i, id := range ids {
		if seen[id] {
			h.fail(key+"-distinct", c, "id %d returned twice: %v", id, ids)
		}
		seen[id] = true
		if i > 0 && dists[i] < dists[i-1] {
			h.fail(key+"-ascending", c, "distances not ascending: %v", dists)
		}
		v, ok := vecs[id]
		if !ok {
			h.fail(key+"-exists", c, "id %d was never added", id)
			continue
		}
		if gone[id] {
			h.fail(key+"-deleted", c, "deleted id %d returned", id)
		}
		if !c.NilAllow && !allowed[id] {
			h.fail(key+"-allowed", c, "id %d is not on the allow list", id)
		}
		if r := refDist(c.Metric, v, c.Query); !near(float64(dists[i]), r) {
			h.fail(key+"-distance", c, "id %d: distance %v, metric says %v", id, dists[i], r)
		}
	}
	if exact {
		want := bruteForce(c.Metric, vecs, c.Query, func(id uint64) bool { return !gone[id] && (c.NilAllow || allowed[id]) })
		if len(want) > c.K {
			want = want[:c.K]
		}
		if len(ids) != len(want) {
			h.fail(key+"-complete", c, "%d results, %d expected: got %v want %v", len(ids), len(want), ids, want)
			return
		}
		for i := range want {
			if !near(want[i].d, float64(dists[i])) {
				h.fail(key+"-nearest", c, "result %d has distance %v, the exact answer has %v", i, dists[i], want[i].d)
				return
			}
		}
	}
}

func genCase(h *vh, small bool) *p05case {
	r := h.rng
	c := &p05case{Metric: []string{"l2", "cosine", "dot", "manhattan"}[r.Intn(4)], Dim: 1 + r.Intn(6), MaxConn: 2 + r.Intn(12), EfC: 4 + r.Intn(40), Ef: []int{-1, 0, 1, 5, 64}[r.Intn(5)], Levels: r.Intn(2) == 0}
	c.N = 1 + r.Intn(60)
	if small {
		c.MaxConn = 8 + r.Intn(24)
		c.N = 1 + r.Intn(c.MaxConn)
		c.Ef = c.N + 1 + r.Intn(64)
		c.EfC = c.N + 32
	}
	c.K = r.Intn(2*c.N + 2)
	if r.Intn(4) > 0 {
		c.K = 1 + r.Intn(10)
	}
	next := uint64(0)
	gap := r.Intn(4) == 0
	big := r.Intn(12) == 0
	for i := 0; i < c.N; i++ {
		if gap && i > 0 {
			next += uint64(r.Intn(50))
		}
		if big && i == c.N/2 {
			next += 30000
		}
		c.IDs = append(c.IDs, next)
		c.Vecs = append(c.Vecs, rvec(r, c.Dim))
		next++
	}
	c.Query = rvec(r, c.Dim)
	if r.Intn(3) == 0 {
		c.Query = append([]float32{}, c.Vecs[r.Intn(c.N)]...)
	}
	c.NilAllow = r.Intn(2) == 0
	if !c.NilAllow {
		for _, id := range c.IDs {
			if r.Intn(2) == 0 {
				c.Allowed = append(c.Allowed, id)
			}
		}
		if r.Intn(5) == 0 {
			c.Allowed = append(c.Allowed, next+3)
		}
	}
	c.Cutoff = []int{0, 1000}[r.Intn(2)]
	return c
}

func (c *p05case) build(h *vh) (*hnsw, map[uint64][]float32, helpers.AllowList) {
	uc := UserConfig{MaxConnections: c.MaxConn, EFConstruction: c.EfC, EF: c.Ef, DynamicEFMin: 100, DynamicEFMax: 500, DynamicEFFactor: 8, FlatSearchCutoff: c.Cutoff}
	o := idxOpt{prov: provOf(c.Metric), uc: uc}
	if c.Levels {
		k := 0
		o.rand = func() float64 { k++; return []float64{0.9, 0.5, 0.01, 0.7, 0.2, 0.0005, 0.6}[k%7] }
	}
	x := newIdx(o)
	vecs := map[uint64][]float32{}
	for i, id := range c.IDs {
		v := append([]float32{}, c.Vecs[i]...)
		if err := x.Add(id, v); err != nil {
			h.fail("add", c, "Add(%d): %v", id, err)
		}
		vecs[id] = c.Vecs[i]
	}
	if err := x.Flush(uint64(len(c.IDs))); err != nil {
		h.fail("flush", c, "Flush: %v", err)
	}
	var al helpers.AllowList
	if !c.NilAllow {
		al = allowOf(c.Allowed...)
	}
	return x, vecs, al
}

func TestVerifKnn(t *testing.T) {
	h := vstart(t, "random indexes of up to 60 vectors (4 metrics, dimensions 1-6, 2-13 links, sparse and large ids, forced upper layers), random k, ef, allow lists and deletions; every result list checked for size, order, distinctness, membership, deletion and exact distance")
	for i := 0; i < h.n(120) && h.more(); i++ {
		c := genCase(h, false)
		h.try("knn", c, func() {
			x, vecs, al := c.build(h)
			defer closeIdx(x)
			gone := map[uint64]bool{}
			if h.rng.Intn(2) == 0 {
				for _, id := range c.IDs {
					if id != x.entryPointID && h.rng.Intn(4) == 0 {
						c.Deleted = append(c.Deleted, id)
						gone[id] = true
					}
				}
				if err := x.Delete(c.Deleted...); err != nil {
					h.fail("delete", c, "%v", err)
				}
			}
			ids, dists, err := x.SearchByVector(append([]float32{}, c.Query...), c.K, al)
			flat := !c.NilAllow && al.Len() < c.Cutoff
			checkKnn(h, "knn", c, ids, dists, err, vecs, gone, flat && c.K > 0)
			h.eval(fmt.Sprint(c.Metric, c.N, c.K, c.Ef, flat, len(c.Deleted) > 0), len(ids) > 0)
		})
	}
}

func TestVerifKnnSmallExact(t *testing.T) {
	h := vstart(t, "random indexes of at most MaxConnections vectors searched with a beam wider than the index: the result must be exactly the k nearest allowed, undeleted vectors")
	for i := 0; i < h.n(120) && h.more(); i++ {
		c := genCase(h, true)
		h.try("small", c, func() {
			x, vecs, al := c.build(h)
			defer closeIdx(x)
			ids, dists, err := x.SearchByVector(append([]float32{}, c.Query...), c.K, al)
			checkKnn(h, "small", c, ids, dists, err, vecs, nil, c.K > 0)
			h.eval(fmt.Sprint(c.Metric, c.N, c.K, c.NilAllow), len(ids) > 0)
		})
	}
}

func TestVerifFlatExact(t *testing.T) {
	h := vstart(t, "clustered indexes of up to 150 vectors with very few links per node, searched with small allow lists below the cutoff and any k: exactly the k nearest allowed live vectors, however badly the graph is connected")
	for i := 0; i < h.n(9) && h.more(); i++ {
		r := h.rng
		c := &p05case{Metric: []string{"l2", "cosine", "manhattan"}[r.Intn(3)], Dim: 2 + r.Intn(2), MaxConn: 2 + r.Intn(3), EfC: 2 + r.Intn(4), Ef: []int{-1, 1, 8}[r.Intn(3)], N: 60 + r.Intn(90), Cutoff: 40}
		for j := 0; j < c.N; j++ {
			v := rvec(r, c.Dim)
			for d := range v {
				v[d] = v[d]/100 + float32(100*((j%6)>>uint(d)&1)) + float32((j%6)*7)
			}
			c.IDs, c.Vecs = append(c.IDs, uint64(j)), append(c.Vecs, v)
		}
		c.Query = append([]float32{}, c.Vecs[r.Intn(c.N)]...)
		c.NilAllow = true
		h.try("flat", c, func() {
			x, vecs, _ := c.build(h)
			defer closeIdx(x)
			gone := map[uint64]bool{}
			for _, id := range c.IDs {
				if id != x.entryPointID && r.Intn(10) == 0 {
					c.Deleted = append(c.Deleted, id)
					gone[id] = true
				}
			}
			if err := x.Delete(c.Deleted...); err != nil {
				h.fail("delete", c, "%v", err)
			}
			for _, n := range []int{1, 2, 5, 12, 39} {
				for _, k := range []int{1, n - 1, n, n + 1, 45} {
					if k < 1 {
						continue
					}
					d := *c
					d.NilAllow, d.K, d.Allowed = false, k, nil
					for _, j := range r.Perm(c.N)[:n] {
						d.Allowed = append(d.Allowed, c.IDs[j])
					}
					ids, dists, err := x.SearchByVector(append([]float32{}, c.Query...), k, allowOf(d.Allowed...))
					checkKnn(h, "flat", &d, ids, dists, err, vecs, gone, true)
					h.eval(fmt.Sprint(c.Metric, c.MaxConn, n, k), len(ids) > 0)
				}
			}
		})
	}
}

func TestVerifKnnConcurrent(t *testing.T) {
	h := vstart(t, "8 goroutines searching the same index at once; every answer checked like a single one")
	for i := 0; i < h.n(4) && h.more(); i++ {
		r := h.rng
		c := &p05case{Metric: []string{"l2", "cosine", "manhattan"}[r.Intn(3)], Dim: 3, MaxConn: 6, EfC: 20, Ef: []int{-1, 8}[r.Intn(2)], N: 70, NilAllow: true, Levels: true}
		for j := 0; j < c.N; j++ {
			c.IDs, c.Vecs = append(c.IDs, uint64(j)), append(c.Vecs, rvec(r, c.Dim))
		}
		h.try("concurrent", c, func() {
			x, vecs, _ := c.build(h)
			defer closeIdx(x)
			var wg sync.WaitGroup
			for g := 0; g < 8; g++ {
				d := *c
				d.K = 1 + r.Intn(12)
				qs := [][]float32{}
				for k := 0; k < 30; k++ {
					qs = append(qs, rvec(r, c.Dim))
				}
				wg.Add(1)
				go func() {
					defer wg.Done()
					defer func() {
						if e := recover(); e != nil {
							h.fail("concurrent-panic", d, "%v", e)
						}
					}()
					for _, q := range qs {
						d := d
						d.Query = q
						ids, dists, err := x.SearchByVector(append([]float32{}, q...), d.K, nil)
						checkKnn(h, "concurrent", &d, ids, dists, err, vecs, nil, false)
						if err == nil && len(ids) == 0 {
							h.fail("concurrent-empty", &d, "no result at all")
						}
						h.eval(q, true)
					}
				}()
			}
			wg.Wait()
		})
	}
}

func TestVerifKnnFailingSource(t *testing.T) {
	h := vstart(t, "indexes some of whose nodes can be read neither from memory nor from the store: a search reports an error or only true distances")
	for i := 0; i < h.n(25) && h.more(); i++ {
		r := h.rng
		c := genCase(h, false)
		c.NilAllow, c.Levels = true, true
		h.try("source", c, func() {
			uc := UserConfig{MaxConnections: c.MaxConn, EFConstruction: c.EfC, EF: c.Ef, DynamicEFMin: 100, DynamicEFMax: 500, DynamicEFFactor: 8}
			kv, _, _ := memKV("C")
			x := newIdx(idxOpt{prov: provOf(c.Metric), uc: uc, kv: kv})
			defer closeIdx(x)
			vecs := map[uint64][]float32{}
			for j, id := range c.IDs {
				if err := x.Add(id, append([]float32{}, c.Vecs[j]...)); err != nil {
					h.fail("add", c, "Add(%d): %v", id, err)
				}
				vecs[id] = c.Vecs[j]
			}
			if err := x.Flush(uint64(len(c.IDs))); err != nil {
				h.fail("flush", c, "Flush: %v", err)
			}
			lost := []uint64{}
			for _, id := range c.IDs {
				if id != x.entryPointID && r.Intn(3) == 0 {
					lost = append(lost, id)
					x.indexCache.Remove(id)
					x.cache.(*shardedLockCache).delete(nil, id)
					if _, err := kv.KVDelete("C", fmt.Sprint(id)); err != nil {
						panic(err)
					}
				}
			}
			ids, dists, err := x.SearchByVector(append([]float32{}, c.Query...), c.K, nil)
			if err == nil {
				checkKnn(h, "source", c, ids, dists, err, vecs, nil, false)
			}
			h.eval(fmt.Sprint(c.Metric, c.N, c.K, len(lost), err != nil), len(lost) > 0)
		})
	}
}

func TestVerifEf(t *testing.T) {
	h := vstart(t, "all beam settings ef, min, max, factor in small ranges and all k up to 40: the beam is never narrower than k")
	x := &hnsw{}
	for _, ef := range []int64{-1, 0, 1, 7, 100} {
		for _, mn := range []int64{0, 1, 10, 100} {
			for _, mx := range []int64{1, 20, 500} {
				for _, f := range []int64{0, 1, 8} {
					for k := 0; k <= 40; k++ {
						x.ef, x.efMin, x.efMax, x.efFactor = ef, mn, mx, f
						if g := x.searchTimeEF(k); g < k || ef >= 1 && g < int(ef) {
							h.fail("ef", []int64{ef, mn, mx, f, int64(k)}, "beam %d for k %d", g, k)
						}
						h.eval([]int64{ef, mn, mx, f, int64(k)}, k > 0)
					}
				}
			}
		}
	}
}
