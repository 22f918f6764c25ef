package hnsw

//use: mem hnswsup

import (
	"fmt"
	"math"
	"testing"

	"github.com/fairdatasociety/fairOS-dfs/pkg/collection"
)

type p09run struct {
	Metric string
	Dim    int
	Conn   int
	Cache  int
	Ops    []string
	h      *vh
	x      *hnsw
	kv     *collection.KeyValue
	reopen func() *collection.KeyValue
	mc     *memClient
	vecs   map[uint64][]float32
	next   uint64
	bad    bool
	rnd    func() float64
}

func (c *p09run) fail(key, f string, a ...any) {
	c.bad = true
	c.h.fail(key, map[string]any{"metric": c.Metric, "dim": c.Dim, "maxConnections": c.Conn, "cacheSize": c.Cache, "ops": c.Ops, "vectors": c.vecs}, f, a...)
}
func (c *p09run) op(f string, a ...any) { c.Ops = append(c.Ops, fmt.Sprintf(f, a...)) }

func (c *p09run) open() {
	c.x = newIdx(idxOpt{prov: provOf(c.Metric), kv: c.kv, uc: UserConfig{MaxConnections: c.Conn, EFConstruction: 40, EF: 60}, rand: c.rnd})
	if c.Cache > 0 {
		c.x.indexCache.Resize(c.Cache)
	}
}

func (c *p09run) add() {
	id := c.next
	c.next++
	v := rvec(c.h.rng, c.Dim)
	c.op("add %d %v", id, v)
	c.vecs[id] = v
	if err := c.x.Add(id, append([]float32{}, v...)); err != nil {
		c.fail("add", "Add(%d): %v", id, err)
	}
}

type p09node struct {
	Id     uint64
	Level  int
	Conns  string
	Vector string
}

func p09dump(x *hnsw, n uint64) (out []p09node) {
	for i := uint64(0); i < n; i++ {
		v := x.nodeByID(i)
		if v == nil {
			out = append(out, p09node{Id: math.MaxUint64})
			continue
		}
		s := ""
		for _, c := range v.Connections {
			s += fmt.Sprint(append([]uint64{}, c...)) + ";"
		}
		out = append(out, p09node{v.Id, v.Level, s, fmt.Sprint(v.Vector)})
	}
	return
}

func (c *p09run) answers(x *hnsw, qs [][]float32) string {
	s := ""
	for _, q := range qs {
		// equally distant neighbours may be exchanged: the distances decide
		_, d, err := x.SearchByVector(append([]float32{}, q...), 5, nil)
		for i := range d {
			d[i] = float32(math.Round(float64(d[i])*1e4) / 1e4)
		}
		s += fmt.Sprint(d, err != nil, "\n")
	}
	return s
}

func (c *p09run) flushAndReopen() {
	c.op("flush %d and reopen", c.next)
	if err := c.x.Flush(c.next); err != nil {
		c.fail("flush", "%v", err)
		return
	}
	if c.x.indexCache.Len() > 0 {
		for _, k := range c.x.indexCache.Keys() {
			if v, ok := c.x.indexCache.Peek(k); ok && !v.(*vertex).Committed {
				c.fail("not-committed", "node %v is not marked as stored after Flush", k)
				return
			}
		}
	}
	before := p09dump(c.x, c.next)
	ep, top := c.x.entryPointID, c.x.currentMaximumLayer
	var qs [][]float32
	for k := 0; k < 3; k++ {
		qs = append(qs, rvec(c.h.rng, c.Dim))
	}
	a := c.answers(c.x, qs)
	closeIdx(c.x)
	c.kv = c.reopen()
	c.open()
	if err := c.x.LoadEntrypoint(); err != nil {
		c.fail("load", "LoadEntrypoint: %v", err)
		return
	}
	if n, err := c.x.GetDocCount(); err != nil || n != c.next {
		c.fail("count", "count %d, %v; flushed %d", n, err, c.next)
		return
	}
	if c.x.entryPointID != ep || c.x.currentMaximumLayer != top {
		c.fail("entrypoint", "entrypoint %d level %d after reopening, was %d level %d", c.x.entryPointID, c.x.currentMaximumLayer, ep, top)
		return
	}
	after := p09dump(c.x, c.next)
	for i := range before {
		if before[i].Id != uint64(i) {
			c.fail("node-lost", "node %d is missing before reopening", i)
			return
		}
		if before[i] != after[i] {
			c.fail("node-changed", "node %d: %+v flushed, %+v after reopening", i, before[i], after[i])
			return
		}
	}
	if b := c.answers(c.x, qs); a != b {
		c.fail("answers", "answers before: %s after: %s (queries %v)", a, b, qs)
	}
}

func p09new(h *vh) *p09run {
	r := h.rng
	c := &p09run{Metric: []string{"l2", "cosine", "manhattan", "dot"}[r.Intn(4)], Dim: 1 + r.Intn(5), Conn: 2 + r.Intn(8), h: h, vecs: map[uint64][]float32{}}
	c.Cache = []int{0, 0, 3, 8}[r.Intn(4)]
	c.kv, c.reopen, c.mc = memKV("C")
	k := 0
	// level 0 only, up to level 1, and high levels
	m := float64(c.Conn)
	lv := [][]float64{{0.9, 0.5, 0.01, 0.7, 0.2, 0.0005, 0.6}, {0.99, 0.9 / m, 0.95, 0.98, 0.9 / m}, {0.99}}[[]int{0, 1, 1, 2}[r.Intn(4)]]
	c.rnd = func() float64 { k++; return lv[k%len(lv)] }
	c.open()
	return c
}

func TestVerifReopen(t *testing.T) {
	h := vstart(t, "random histories of up to 5 sessions of insertions, each flushed and reopened (4 metrics, node cache of unlimited, 3 or 8 nodes); nodes, entrypoint, level, count and answers compared across reopening")
	for i := 0; i < h.n(45) && h.more(); i++ {
		c := p09new(h)
		h.tryT("reopen", nil, 90e9, func() {
			for s := 0; s < 1+h.rng.Intn(5) && !c.bad; s++ {
				n := 1 + h.rng.Intn(12)
				for k := 0; k < n && !c.bad; k++ {
					c.add()
					if h.rng.Intn(8) == 0 && !c.bad {
						c.op("flush")
						if err := c.x.Flush(c.next); err != nil {
							c.fail("flush", "%v", err)
						}
					}
				}
				if !c.bad {
					c.flushAndReopen()
				}
			}
			closeIdx(c.x)
		})
		h.eval(fmt.Sprint(c.Metric, c.Cache, len(c.Ops), i), c.next > 2)
	}
}

func TestVerifFailedFlush(t *testing.T) {
	h := vstart(t, "flushes that fail at a random storage operation and are repeated: the failure is reported and the repeated flush stores everything")
	for i := 0; i < h.n(60) && h.more(); i++ {
		c := p09new(h)
		if c.Cache > 0 { // an eviction during the failure is reported by the log only
			closeIdx(c.x)
			c.Cache = 0
			c.open()
		}
		h.tryT("failed-flush", nil, 90e9, func() {
			for s := 0; s < 1+h.rng.Intn(3) && !c.bad; s++ {
				n := 1 + h.rng.Intn(8)
				for k := 0; k < n && !c.bad; k++ {
					c.add()
				}
				for f := 0; f < 1+h.rng.Intn(2) && !c.bad; f++ {
					after := 1 + h.rng.Intn(6*n+8)
					c.mc.failUpAfter.Store(int64(after))
					err := c.x.Flush(c.next)
					failed := c.mc.failUp.Load()
					c.mc.failUpAfter.Store(0)
					c.mc.failUp.Store(false)
					c.op("flush failing after %d uploads: %v", after, err)
					if err == nil && failed {
						// the last upload was the one that armed the failure: nothing failed
						continue
					}
				}
				if !c.bad {
					c.flushAndReopen()
				}
			}
			closeIdx(c.x)
		})
		h.eval(fmt.Sprint(c.Metric, len(c.Ops), i), true)
	}
}

func TestVerifLookup(t *testing.T) {
	h := vstart(t, "lookups of existing and missing ids through a node cache of 2 entries: always the node asked for, never another")
	for i := 0; i < h.n(20) && h.more(); i++ {
		c := p09new(h)
		h.try("lookup", nil, func() {
			for k := 0; k < 12 && !c.bad; k++ {
				c.add()
			}
			c.x.indexCache.Resize(2)
			for k := 0; k < 60 && !c.bad; k++ {
				id := uint64(h.rng.Intn(16))
				v := c.x.nodeByID(id)
				if id >= c.next {
					if v != nil {
						c.fail("lookup-missing", "nodeByID(%d) gives node %d", id, v.Id)
					}
					continue
				}
				if v == nil {
					c.fail("lookup-lost", "node %d is gone after eviction", id)
					continue
				}
				if v.Id != id || len(v.Vector) != c.Dim || c.Metric != "cosine" && fmt.Sprint(v.Vector) != fmt.Sprint(c.vecs[id]) {
					c.fail("lookup-other", "nodeByID(%d) gives %d with vector %v, want %v", id, v.Id, v.Vector, c.vecs[id])
				}
			}
			closeIdx(c.x)
		})
		h.eval(fmt.Sprint(c.Metric, i), true)
	}
}
