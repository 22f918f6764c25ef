package hnsw

//use: mem hnswsup

import (
	"context"
	"errors"
	"fmt"
	"testing"

	"github.com/fairdatasociety/fairOS-dfs/pkg/collection"
	"github.com/weaviate/weaviate/adapters/repos/db/helpers"
)

type p08run struct {
	Metric string
	Dim    int
	Conn   int
	Ops    []string
	h      *vh
	x      *hnsw
	mc     *memClient
	reopen func() *collection.KeyValue
	open   func(*collection.KeyValue) *hnsw
	vecs   map[uint64][]float32
	gone   map[uint64]bool // deleted, never added again
	next   uint64
	bad    bool
}

func (c *p08run) fail(key, f string, a ...any) {
	c.bad = true
	in := map[string]any{"metric": c.Metric, "dim": c.Dim, "maxConnections": c.Conn, "ops": c.Ops, "vectors": c.vecs}
	c.h.fail(key, in, f, a...)
}

func (c *p08run) op(f string, a ...any) { c.Ops = append(c.Ops, fmt.Sprintf(f, a...)) }

func (c *p08run) add() {
	id := c.next
	c.next++
	v := rvec(c.h.rng, c.Dim)
	c.op("add %d %v", id, v)
	c.vecs[id] = v
	if err := c.x.Add(id, append([]float32{}, v...)); err != nil {
		c.fail("add", "Add(%d): %v", id, err)
	}
}

func (c *p08run) flush() {
	c.op("flush")
	if err := c.x.Flush(c.next); err != nil {
		c.fail("flush", "%v", err)
	}
}

func (c *p08run) live() (out []uint64) {
	for id := uint64(0); id < c.next; id++ {
		if !c.gone[id] {
			out = append(out, id)
		}
	}
	return
}

func (c *p08run) search() {
	q := rvec(c.h.rng, c.Dim)
	for id := range c.gone { // aim at a deleted vector
		if c.h.rng.Intn(2) == 0 {
			q = c.vecs[id]
		}
		break
	}
	k := 1 + c.h.rng.Intn(int(c.next)+3)
	var al helpers.AllowList
	kind := c.h.rng.Intn(4)
	if kind == 1 {
		al = helpers.NewAllowList()
		for id := uint64(0); id < c.next; id++ {
			if c.h.rng.Intn(3) > 0 {
				al.Insert(id)
			}
		}
	}
	var ids []uint64
	var err error
	switch kind {
	case 2:
		c.op("search by distance %v", q)
		ids, _, err = c.x.SearchByVectorDistance(append([]float32{}, q...), 1e6, -1, nil)
	case 3:
		c.op("search max distance %v", q)
		ids, _, err = c.x.KnnSearchByVectorMaxDist(append([]float32{}, q...), 1e6, 50, nil)
	default:
		c.op("search %v k=%d allow=%v", q, k, al != nil)
		ids, _, err = c.x.SearchByVector(append([]float32{}, q...), k, al)
	}
	_ = err // an index whose entrypoint was deleted may refuse to answer
	for _, id := range ids {
		if c.gone[id] {
			c.fail("deleted-returned", "search returned deleted id %d: %v", id, ids)
			return
		}
		if _, ok := c.vecs[id]; !ok {
			c.fail("unknown-returned", "search returned unknown id %d", id)
			return
		}
	}
}

// restart reopens the index; tombstones live in memory, so none may be left
func (c *p08run) restart() {
	c.op("flush and reopen")
	if err := c.x.Flush(c.next); err != nil {
		c.fail("flush", "%v", err)
		return
	}
	closeIdx(c.x)
	c.x = c.open(c.reopen())
	if err := c.x.LoadEntrypoint(); err != nil {
		c.fail("load", "%v", err)
	}
}

func (c *p08run) del(ep bool) {
	var ids []uint64
	most := c.h.rng.Intn(4) == 0 // most of the older half
	for _, id := range c.live() {
		if !ep && id == c.x.getEntrypoint() {
			continue
		}
		if most && (id > c.next/2 || c.h.rng.Intn(8) == 0) || !most && c.h.rng.Intn(4) > 0 {
			continue
		}
		ids = append(ids, id)
	}
	if ep {
		ids = append(ids, c.x.getEntrypoint())
	}
	c.op("delete %v", ids)
	if err := c.x.Delete(ids...); err != nil {
		c.fail("delete", "%v", err)
		return
	}
	for _, id := range ids {
		c.gone[id] = true
		if !c.x.hasTombstone(id) {
			c.fail("no-tombstone", "id %d has no tombstone after Delete", id)
			return
		}
	}
}

// clean runs a cleanup; it reports whether it ran to the end.
func (c *p08run) clean(stopAfter int, failing bool) bool {
	n := 0
	pending := map[uint64]bool{}
	for id := range c.x.tombstones {
		pending[id] = true
	}
	c.op("cleanup stop=%d fail=%v", stopAfter, failing)
	if failing {
		c.mc.failUp.Store(true)
	}
	stopped := false
	err := c.x.CleanUpTombstonedNodes(func() bool {
		n++
		if stopAfter >= 0 && n > stopAfter {
			stopped = true
		}
		return stopped
	})
	c.mc.failUp.Store(false)
	// no lock may stay held
	for _, l := range []struct {
		n string
		f func() bool
	}{{"resetLock", func() bool { return c.tryLock(c.x.resetLock) }}, {"index lock", func() bool { return c.tryLock(c.x) }}, {"tombstoneLock", func() bool { return c.tryLock(c.x.tombstoneLock) }}, {"deleteLock", func() bool { return c.tryLock(c.x.deleteLock) }}} {
		if !l.f() {
			c.fail("lock-held", "%s held after cleanup (%v)", l.n, err)
			return false
		}
	}
	// the store refuses to remove the last entry below a prefix (its own defect): a failed cleanup, nothing more
	if !failing && err != nil && !errors.Is(err, collection.ErrNoManifestFound) {
		c.fail("cleanup-error", "cleanup failed: %v", err)
		return false
	}
	for id := range pending {
		if c.x.hasTombstone(id) {
			continue
		}
		if c.x.indexCache.Contains(id) {
			c.fail("cleanup-cache", "id %d lost its tombstone but is still cached", id)
			return false
		}
		if _, _, err := c.x.nodes.KVGet(c.x.className, fmt.Sprintf("%d", id)); err == nil {
			c.fail("cleanup-store", "id %d lost its tombstone but is still stored", id)
			return false
		}
	}
	return !stopped && err == nil
}

func (c *p08run) tryLock(l interface {
	TryLock() bool
	Unlock()
}) bool {
	if !l.TryLock() {
		return false
	}
	l.Unlock()
	return true
}

func (c *p08run) check(complete bool) {
	for _, id := range c.live() {
		v := c.x.nodeByID(id)
		if v == nil {
			c.fail("live-lost", "node %d was never deleted but is gone", id)
			return
		}
		if c.x.hasTombstone(id) {
			c.fail("live-tombstone", "node %d was never deleted but has a tombstone", id)
			return
		}
		if complete && v.isUnderMaintenance() {
			c.fail("maintenance", "after cleanup node %d is still under maintenance: no later insertion links to it", id)
			return
		}
		got, err := c.x.cache.get(context.Background(), id)
		want := c.vecs[id]
		if err != nil || len(got) != len(want) || c.Metric != "cosine" && fmt.Sprint(got) != fmt.Sprint(want) {
			c.fail("live-vector", "vector of %d: %v, %v; added %v", id, got, err, want)
			return
		}
		for l, cs := range v.Connections {
			for _, t := range cs {
				if complete && c.gone[t] {
					c.fail("link-to-deleted", "after cleanup node %d still links to %d on level %d", id, t, l)
					return
				}
			}
		}
	}
	if complete && len(c.x.tombstones) > 0 {
		c.fail("tombstones-left", "after a complete cleanup %d tombstones are left", len(c.x.tombstones))
	}
}

func p08new(h *vh, ep bool) *p08run {
	r := h.rng
	c := &p08run{Metric: []string{"l2", "cosine", "manhattan", "l2"}[r.Intn(4)], Dim: 1 + r.Intn(5), Conn: 2 + r.Intn(8), h: h, vecs: map[uint64][]float32{}, gone: map[uint64]bool{}}
	kv, reopen, mc := memKV("C")
	c.mc, c.reopen = mc, reopen
	k := 0
	lv := []float64{0.9, 0.5, 0.01, 0.7, 0.2, 0.0005, 0.6}
	if ep {
		lv = []float64{0.9}
	}
	cutoff := []int{0, 0, 1000}[r.Intn(3)]
	c.open = func(kv *collection.KeyValue) *hnsw {
		return newIdx(idxOpt{prov: provOf(c.Metric), kv: kv, uc: UserConfig{MaxConnections: c.Conn, EFConstruction: 40, EF: 60, FlatSearchCutoff: cutoff}, rand: func() float64 { k++; return lv[k%len(lv)] }})
	}
	c.x = c.open(kv)
	return c
}

func TestVerifDeletes(t *testing.T) {
	h := vstart(t, "random histories of up to 40 insertions, deletions (not of the entrypoint), flushes, searches of all kinds and cleanups (complete, interrupted at every point, with failing storage), 3 metrics; after every step: no deleted id returned, live nodes intact, no lock held, after a complete cleanup no links to deleted ids")
	for i := 0; i < h.n(60) && h.more(); i++ {
		c := p08new(h, false)
		h.tryT("history", nil, 90e9, func() {
			defer closeIdx(c.x)
			n := 3 + h.rng.Intn(30)
			for k := 0; k < n && !c.bad; k++ {
				c.add()
			}
			c.flush()
			for s := 0; s < 6+h.rng.Intn(12) && !c.bad; s++ {
				switch h.rng.Intn(9) {
				case 0:
					c.add()
					c.flush()
				case 1, 2:
					c.del(false)
				case 3:
					c.clean(h.rng.Intn(2*int(c.next)), false)
					c.check(false)
				case 4:
					c.clean(-1, true)
					c.check(false)
				case 5:
					if h.rng.Intn(2) == 0 {
						c.flush()
					}
					done := c.clean(-1, false)
					if !c.bad {
						c.check(done)
					}
					if done && !c.bad && h.rng.Intn(3) == 0 {
						c.restart()
						if !c.bad {
							c.check(true)
						}
					}
				default:
					c.search()
					c.search()
				}
				if !c.bad {
					c.search()
				}
			}
		})
		h.eval(fmt.Sprint(len(c.Ops), c.Ops[len(c.Ops)-3:]), len(c.gone) > 0)
	}
}

func TestVerifDeleteEntrypoint(t *testing.T) {
	h := vstart(t, "random histories in which the entrypoint is deleted too: no deleted id is ever returned and the index accepts further insertions")
	for i := 0; i < h.n(40) && h.more(); i++ {
		c := p08new(h, true)
		h.tryT("history-entrypoint", nil, 90e9, func() {
			defer closeIdx(c.x)
			n := 1 + h.rng.Intn(15)
			for k := 0; k < n && !c.bad; k++ {
				c.add()
			}
			c.flush()
			for s := 0; s < 6 && !c.bad; s++ {
				switch h.rng.Intn(3) {
				case 0:
					c.del(true)
				case 1:
					c.del(false)
				}
				c.search()
				c.search()
			}
		})
		h.eval(fmt.Sprint(len(c.Ops), c.Ops[len(c.Ops)-3:]), len(c.gone) > 0)
	}
}
