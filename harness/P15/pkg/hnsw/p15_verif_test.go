package hnsw

//use: mem hnswsup

import (
	"context"
	"errors"
	"fmt"
	"math"
	"sync"
	"testing"
	"time"

	"github.com/sirupsen/logrus"
)

func p15vec(id uint64, gen int) []float32 {
	return []float32{float32(id%977) + 1, float32(id % 13), float32(gen)}
}

func p15norm(v []float32) []float32 {
	s := 0.0
	for _, x := range v {
		s += float64(x) * float64(x)
	}
	o := make([]float32, len(v))
	for i := range v {
		o[i] = float32(float64(v[i]) / math.Sqrt(s))
	}
	return o
}

func p15same(a, b []float32) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if math.Abs(float64(a[i])-float64(b[i])) > 1e-5*(1+math.Abs(float64(b[i]))) {
			return false
		}
	}
	return true
}

func TestVerifCacheHistory(t *testing.T) {
	h := vstart(t, "random sequences of 120 cache operations (get, multi-get, preload, delete, grow, maintenance, eviction) over ids from 0 to 1e5, with failing and recovering sources, with and without normalisation; every answer compared with the source")
	log := logrus.New()
	log.Out = nullWriter{}
	for i := 0; i < h.n(60) && h.more(); i++ {
		r := h.rng
		norm := r.Intn(2) == 0
		maxSize := []int{1, 5, 1 << 40}[r.Intn(3)]
		failing := map[uint64]bool{}
		gen := map[uint64]int{}
		srcErr := errors.New("source failed")
		calls := 0
		c := newShardedLockCache(func(_ context.Context, id uint64) ([]float32, error) {
			calls++
			if failing[id] {
				return nil, srcErr
			}
			return p15vec(id, gen[id]), nil
		}, maxSize, log, norm, time.Hour)
		ids := make([]uint64, 12)
		for k := range ids {
			ids[k] = uint64(r.Intn(40))
			if r.Intn(3) == 0 {
				ids[k] = uint64(r.Intn(100000))
			}
		}
		ids = append(ids, initialSize-1, initialSize, initialSize+1, 0)
		want := func(id uint64) []float32 {
			if norm {
				return p15norm(p15vec(id, gen[id]))
			}
			return p15vec(id, gen[id])
		}
		cached := map[uint64][]float32{} // what the cache must hold
		var ops []string
		in := func() any { return map[string]any{"normalize": norm, "max": maxSize, "ops": ops} }
		h.try("cache", nil, func() {
			defer c.drop()
			one := func(id uint64, v []float32, err error) {
				if w, ok := cached[id]; ok {
					if err != nil || !p15same(v, w) {
						h.fail("cached", in(), "id %d: %v, %v; cached %v", id, v, err, w)
					}
					return
				}
				if failing[id] {
					if !errors.Is(err, srcErr) {
						h.fail("source-error", in(), "id %d: %v, %v; the source fails", id, v, err)
					}
					return
				}
				if err != nil || !p15same(v, want(id)) {
					h.fail("source", in(), "id %d: %v, %v; the source says %v", id, v, err, want(id))
				}
				cached[id] = want(id)
			}
			for k := 0; k < 120 && h.fails == 0; k++ {
				id := ids[r.Intn(len(ids))]
				switch r.Intn(9) {
				case 0, 1:
					ops = append(ops, fmt.Sprintf("get %d", id))
					v, err := c.get(context.Background(), id)
					one(id, v, err)
				case 2:
					var m []uint64
					for q := 0; q < r.Intn(6); q++ {
						m = append(m, ids[r.Intn(len(ids))])
					}
					ops = append(ops, fmt.Sprintf("multiGet %v", m))
					vs, errs := c.multiGet(context.Background(), m)
					if len(vs) != len(m) || len(errs) != len(m) {
						h.fail("multi-len", in(), "%d vectors, %d errors for %d ids", len(vs), len(errs), len(m))
						return
					}
					for q := range m {
						one(m[q], vs[q], errs[q])
					}
				case 3:
					gen[id]++
					w := want(id)
					ops = append(ops, fmt.Sprintf("preload %d %v", id, w))
					c.preload(id, w)
					cached[id] = w
				case 4:
					ops = append(ops, fmt.Sprintf("delete %d", id))
					c.delete(context.Background(), id)
					delete(cached, id)
				case 5:
					ops = append(ops, fmt.Sprintf("source of %d fails: %v", id, !failing[id]))
					failing[id] = !failing[id]
				case 6:
					ops = append(ops, fmt.Sprintf("grow %d", id))
					c.grow(id)
					if uint64(c.len()) <= id {
						h.fail("grow", in(), "length %d after grow(%d)", c.len(), id)
					}
				case 7:
					n := c.countVectors()
					ops = append(ops, fmt.Sprintf("maintenance at %d of %d", n, maxSize))
					c.replaceIfFull()
					if n >= int64(maxSize) {
						cached = map[uint64][]float32{}
						if c.countVectors() != 0 {
							h.fail("evict-count", in(), "count %d after eviction", c.countVectors())
						}
					}
				case 8:
					ops = append(ops, fmt.Sprintf("prefetch %d", id))
					c.prefetch(id)
				}
				if n := c.countVectors(); n < int64(len(cached)) {
					h.fail("count", in(), "count %d though %d vectors are cached", n, len(cached))
				}
			}
			// a cached vector is served without the source
			for id, w := range cached {
				n := calls
				v, err := c.get(context.Background(), id)
				if err != nil || !p15same(v, w) || calls != n {
					h.fail("hit", in(), "id %d: %v, %v after %d source calls; cached %v", id, v, err, calls-n, w)
					return
				}
			}
		})
		h.eval(fmt.Sprint(norm, maxSize, ops), len(ops) > 10)
	}
}

type nullWriter struct{}

func (nullWriter) Write(p []byte) (int, error) { return len(p), nil }

func TestVerifCacheConcurrent(t *testing.T) {
	h := vstart(t, "8 goroutines mixing get, multi-get, preload, delete, growth and maintenance over shared ids for a fraction of a second; every vector returned belongs to its id")
	log := logrus.New()
	log.Out = nullWriter{}
	for i := 0; i < h.n(6) && h.more(); i++ {
		c := newShardedLockCache(func(_ context.Context, id uint64) ([]float32, error) {
			return p15vec(id, 0), nil
		}, 50, log, false, time.Hour)
		h.try("cache-concurrent", nil, func() {
			defer c.drop()
			var wg sync.WaitGroup
			stop := time.Now().Add(250 * time.Millisecond)
			for g := 0; g < 8; g++ {
				wg.Add(1)
				go func(seed uint64) {
					defer wg.Done()
					s := seed*2654435761 + 12345
					for time.Now().Before(stop) {
						s = s*6364136223846793005 + 1442695040888963407
						id := (s >> 33) % 64
						if (s>>20)%7 == 0 {
							id = (s >> 33) % 60000
						}
						bad := func(v []float32, err error) {
							if err != nil || !p15same(v, p15vec(id, 0)) {
								h.fail("concurrent", map[string]any{"id": id}, "id %d: %v, %v", id, v, err)
							}
						}
						switch (s >> 50) % 12 {
						case 0:
							c.preload(id, p15vec(id, 0))
						case 1:
							c.delete(context.Background(), id)
						case 2:
							if (s>>40)%64 == 0 {
								c.replaceIfFull()
							}
						case 3:
							vs, errs := c.multiGet(context.Background(), []uint64{id, id})
							bad(vs[1], errs[1])
						case 4:
							c.prefetch(id)
						default:
							v, err := c.get(context.Background(), id)
							bad(v, err)
						}
					}
				}(uint64(g + 8*i))
			}
			wg.Wait()
		})
		h.eval(i, true)
	}
}

func TestVerifCacheGrowth(t *testing.T) {
	h := vstart(t, "a large cache growing while four goroutines delete 40000 preloaded ids: what was deleted is always fetched again from the source")
	log := logrus.New()
	log.Out = nullWriter{}
	for i := 0; i < h.n(2) && h.more(); i++ {
		c := newShardedLockCache(func(_ context.Context, id uint64) ([]float32, error) {
			return p15vec(id, 1), nil
		}, 1<<40, log, false, time.Hour)
		h.try("cache-growth", nil, func() {
			defer c.drop()
			size := uint64(1000000)
			c.grow(size)
			const ids = 40000
			for round := 0; round < 6 && h.fails < 3; round++ {
				for id := uint64(0); id < ids; id++ {
					c.preload(id, p15vec(id, 0))
				}
				var wg sync.WaitGroup
				for g := uint64(0); g < 4; g++ {
					wg.Add(1)
					go func(g uint64) {
						defer wg.Done()
						for id := g; id < ids; id += 4 {
							c.delete(context.Background(), id)
						}
					}(g)
				}
				size += 5000
				c.grow(size)
				wg.Wait()
				for id := uint64(0); id < ids; id++ {
					v, err := c.get(context.Background(), id)
					if err != nil || !p15same(v, p15vec(id, 1)) {
						h.fail("growth-deleted", map[string]any{"id": id, "grown-to": size}, "id %d was deleted while the cache grew, get then returned %v, %v; the source provides %v", id, v, err, p15vec(id, 1))
						break
					}
					c.delete(context.Background(), id)
				}
			}
		})
		h.eval(i, true)
	}
}

func TestVerifCacheCancelled(t *testing.T) {
	h := vstart(t, "many ids asked at once while some or all of the source's calls fail, also because the request was cancelled: every position has its id's vector or its error")
	log := logrus.New()
	log.Out = nullWriter{}
	for i := 0; i < h.n(60) && h.more(); i++ {
		r := h.rng
		mode := r.Intn(3)
		c := newShardedLockCache(func(ctx context.Context, id uint64) ([]float32, error) {
			if mode > 0 && id%3 == uint64(mode) {
				return nil, fmt.Errorf("id %d failed", id)
			}
			if id%2 == 0 && ctx.Err() != nil {
				return nil, ctx.Err()
			}
			return p15vec(id, 0), nil
		}, 1<<40, log, false, time.Hour)
		ctx, cancel := context.WithCancel(context.Background())
		cancelled := r.Intn(2) == 0
		if cancelled {
			cancel()
		}
		ids := make([]uint64, 1+r.Intn(12))
		for k := range ids {
			ids[k] = uint64(r.Intn(40))
		}
		in := map[string]any{"ids": ids, "mode": mode, "cancelled": cancelled}
		h.try("cache-cancelled", in, func() {
			defer c.drop()
			vs, errs := c.multiGet(ctx, ids)
			if len(vs) != len(ids) || len(errs) != len(ids) {
				h.fail("multi-len", in, "%d vectors, %d errors", len(vs), len(errs))
				return
			}
			for k, id := range ids {
				bad := mode > 0 && id%3 == uint64(mode) || id%2 == 0 && cancelled
				if (errs[k] != nil) != bad || !bad && !p15same(vs[k], p15vec(id, 0)) {
					h.fail("multi-cancelled", in, "position %d, id %d: %v, %v", k, id, vs[k], errs[k])
				}
			}
		})
		cancel()
		h.eval(in, true)
	}
}

func TestVerifIndexVectors(t *testing.T) {
	h := vstart(t, "indexes whose vector source fails for some or all ids: the index still serves the vector each id was added with, also after its cache was emptied")
	for i := 0; i < h.n(20) && h.more(); i++ {
		r := h.rng
		metric := []string{"l2", "cosine", "manhattan"}[r.Intn(3)]
		vecs := map[uint64][]float32{}
		mode := r.Intn(3)
		x := newIdx(idxOpt{prov: provOf(metric), thunk: func(_ context.Context, id uint64) ([]float32, error) {
			if mode == 0 || mode == 1 && id%2 == 0 {
				return nil, errNoVec
			}
			return append([]float32{}, vecs[id]...), nil
		}})
		h.try("index-vectors", nil, func() {
			defer closeIdx(x)
			n := 2 + r.Intn(15)
			for k := 0; k < n; k++ {
				vecs[uint64(k)] = rvec(r, 3)
				if err := x.Add(uint64(k), append([]float32{}, vecs[uint64(k)]...)); err != nil {
					h.fail("index-add", vecs, "Add(%d): %v", k, err)
					return
				}
			}
			if r.Intn(2) == 0 {
				x.Flush(uint64(n))
			}
			for round := 0; round < 2; round++ {
				for k := 0; k < n; k++ {
					v, err := x.vectorForID(context.Background(), uint64(k))
					w := vecs[uint64(k)]
					if metric == "cosine" {
						w = p15norm(w)
					}
					if err != nil || !p15same(v, w) {
						h.fail("index-vector", map[string]any{"metric": metric, "vectors": vecs, "mode": mode}, "vector of %d: %v, %v; want %v", k, v, err, w)
						return
					}
				}
				x.cache.(*shardedLockCache).deleteAllVectors()
			}
		})
		h.eval(fmt.Sprint(metric, mode, i), true)
	}
}
