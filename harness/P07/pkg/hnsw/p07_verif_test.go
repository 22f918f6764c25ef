package hnsw

//use: mem hnswsup

import (
	"context"
	"fmt"
	"math"
	"sort"
	"testing"

	"github.com/fairDataSociety/FaVe/pkg/hnsw/priorityqueue"
	"github.com/weaviate/weaviate/adapters/repos/db/helpers"
)

type p07case struct {
	Metric  string
	MaxConn int
	Ef      int
	Seed    int
	Vecs    [][]float32
	Rand    []float64
	FlushAt []int
	Node    int
}

type p07node struct {
	level int
	conns [][]uint64
}

func p07snap(x *hnsw, n int) map[uint64]p07node {
	out := map[uint64]p07node{}
	for i := 0; i < n; i++ {
		v := x.nodeByID(uint64(i))
		if v == nil {
			continue
		}
		c := make([][]uint64, len(v.Connections))
		for l := range c {
			c[l] = append([]uint64{}, v.Connections[l]...)
		}
		out[uint64(i)] = p07node{v.Level, c}
	}
	return out
}

func p07set(a []uint64) map[uint64]bool {
	m := map[uint64]bool{}
	for _, x := range a {
		m[x] = true
	}
	return m
}

// p07pick is the reference choice of neighbours; ties reports whether equal distances make it ambiguous.
func p07pick(cand []scored, max int, dist func(a, b uint64) float64, deny func(uint64) bool) (out []uint64, ties bool) {
	if len(cand) < max {
		for _, c := range cand {
			out = append(out, c.id)
		}
		return out, false
	}
	sort.Slice(cand, func(i, j int) bool { return cand[i].d < cand[j].d })
	for i := 1; i < len(cand); i++ {
		if near(cand[i].d, cand[i-1].d) {
			ties = true
		}
	}
	for _, c := range cand {
		if len(out) >= max {
			break
		}
		if deny != nil && deny(c.id) {
			continue
		}
		good := true
		for _, o := range out {
			p := dist(c.id, o)
			if near(p, c.d) {
				ties = true
			}
			if p < c.d {
				good = false
				break
			}
		}
		if good {
			out = append(out, c.id)
		}
	}
	return out, ties
}

func (c *p07case) run(h *vh) {
	k := 0
	x := newIdx(idxOpt{prov: provOf(c.Metric), uc: UserConfig{MaxConnections: c.MaxConn, EFConstruction: c.Ef}, rand: func() float64 { k++; return c.Rand[k%len(c.Rand)] }})
	defer closeIdx(x)
	maxL := func(l int) int {
		if l == 0 {
			return 2 * c.MaxConn
		}
		return c.MaxConn
	}
	dist := func(a, b uint64) float64 { return refDist(c.Metric, c.Vecs[a], c.Vecs[b]) }
	flush := map[int]bool{}
	for _, f := range c.FlushAt {
		flush[f] = true
	}
	before := map[uint64]p07node{}
	for i := range c.Vecs {
		c.Node = i
		oldMax, oldEp := x.currentMaximumLayer, x.entryPointID
		if err := x.Add(uint64(i), append([]float32{}, c.Vecs[i]...)); err != nil {
			h.fail("add", c, "Add(%d): %v", i, err)
			return
		}
		after := p07snap(x, i+1)
		me, ok := after[uint64(i)]
		if !ok {
			h.fail("missing", c, "node %d is not there after Add", i)
			return
		}
		top := -1
		for id, n := range after {
			if n.level > top {
				top = n.level
			}
			if len(n.conns) != n.level+1 {
				h.fail("levels", c, "node %d of level %d has %d link lists", id, n.level, len(n.conns))
				return
			}
			for l, cs := range n.conns {
				if len(cs) > maxL(l) {
					h.fail("links-max", c, "node %d has %d links on level %d, maximum %d", id, len(cs), l, maxL(l))
					return
				}
				seen := map[uint64]bool{}
				for _, t := range cs {
					if t == id {
						h.fail("self-link", c, "node %d links to itself on level %d", id, l)
						return
					}
					if seen[t] {
						h.fail("dup-link", c, "node %d links to %d twice on level %d", id, t, l)
						return
					}
					seen[t] = true
					tn, ok := after[t]
					if !ok {
						h.fail("dangling", c, "node %d links to %d, which does not exist", id, t)
						return
					}
					if tn.level < l {
						h.fail("link-level", c, "node %d links on level %d to %d of level %d", id, l, t, tn.level)
						return
					}
				}
			}
		}
		if ep, ok := after[x.entryPointID]; !ok || ep.level != top || x.currentMaximumLayer != top {
			h.fail("entrypoint", c, "after node %d: entrypoint %d (level %d), index level %d, highest level %d", i, x.entryPointID, ep.level, x.currentMaximumLayer, top)
			return
		}
		if i > 0 && x.entryPointID != oldEp && me.level <= oldMax {
			h.fail("entrypoint-change", c, "node %d of level %d replaced entrypoint %d of level %d", i, me.level, oldEp, oldMax)
			return
		}
		if v := x.nodeByID(uint64(i)); v.Maintenance {
			h.fail("maintenance", c, "node %d still under maintenance after Add", i)
			return
		}
		if i > 0 {
			m := me.level
			if oldMax < m {
				m = oldMax
			}
			for l := 0; l <= m; l++ {
				if len(me.conns[l]) == 0 {
					h.fail("isolated", c, "node %d has no links on level %d though others are there", i, l)
					return
				}
				if len(me.conns[l]) > c.MaxConn {
					h.fail("out-max", c, "new node %d chose %d links on level %d, maximum %d", i, len(me.conns[l]), l, c.MaxConn)
					return
				}
			}
			if i < c.MaxConn && c.Ef >= i {
				for id := range before {
					if !p07set(me.conns[0])[id] {
						h.fail("complete", c, "node %d of the first %d is not linked to %d: %v", i, c.MaxConn, id, me.conns[0])
						return
					}
				}
			}
		}
		// the links of the older nodes
		for id, o := range before {
			n := after[id]
			if n.level != o.level {
				h.fail("level-change", c, "level of %d changed from %d to %d", id, o.level, n.level)
				return
			}
			for l := range o.conns {
				chosen := l <= me.level && p07set(me.conns[l])[id]
				ns, os := p07set(n.conns[l]), p07set(o.conns[l])
				if !chosen {
					if fmt.Sprint(n.conns[l]) != fmt.Sprint(o.conns[l]) {
						h.fail("unrelated-change", c, "links of %d on level %d changed from %v to %v though %d does not link to it", id, l, o.conns[l], n.conns[l], i)
						return
					}
					continue
				}
				if len(o.conns[l]) < maxL(l) {
					want := append(append([]uint64{}, o.conns[l]...), uint64(i))
					if len(ns) != len(want) || !ns[uint64(i)] {
						h.fail("backlink", c, "%d links to %d on level %d; its links went from %v to %v", i, id, l, o.conns[l], n.conns[l])
						return
					}
					for t := range os {
						if !ns[t] {
							h.fail("backlink-lost", c, "links of %d on level %d lost %d though there was room: %v to %v", id, l, t, o.conns[l], n.conns[l])
							return
						}
					}
					continue
				}
				cand := []scored{{uint64(i), dist(uint64(i), id)}}
				for t := range os {
					cand = append(cand, scored{t, dist(t, id)})
				}
				want, ties := p07pick(cand, maxL(l), dist, nil)
				if ties {
					continue
				}
				if fmt.Sprint(p07sorted(want)) != fmt.Sprint(p07sorted(n.conns[l])) {
					h.fail("pruned", c, "full list of %d on level %d: links %v, the choice among %v is %v", id, l, n.conns[l], p07sorted(append(append([]uint64{}, o.conns[l]...), uint64(i))), want)
					return
				}
			}
		}
		before = after
		if flush[i] {
			if err := x.Flush(uint64(i + 1)); err != nil {
				h.fail("flush", c, "%v", err)
				return
			}
		}
	}
}

func p07sorted(a []uint64) []uint64 {
	b := append([]uint64{}, a...)
	sort.Slice(b, func(i, j int) bool { return b[i] < b[j] })
	return b
}

func p07vec(h *vh, d int) []float32 {
	v := make([]float32, d)
	for i := range v {
		v[i] = float32(h.rng.NormFloat64())
	}
	return v
}

func TestVerifGraph(t *testing.T) {
	h := vstart(t, "random sequential insertions (3 metrics, dimensions 1-5, up to 70 vectors, 2-9 links, forced level draws, flushes in between); after every insertion every node is checked for list sizes, duplicates, self links, dangling links, levels, back links, pruning against a reference choice, and the entrypoint")
	for i := 0; i < h.n(60) && h.more(); i++ {
		r := h.rng
		c := &p07case{Metric: []string{"l2", "l2", "cosine", "manhattan"}[r.Intn(4)], MaxConn: 2 + r.Intn(8), Seed: i}
		n := 2 + r.Intn(69)
		c.Ef = []int{1 + r.Intn(8), 16, n + 10}[r.Intn(3)]
		d := 1 + r.Intn(5)
		for k := 0; k < n; k++ {
			if r.Intn(6) == 0 {
				c.Vecs = append(c.Vecs, rvec(r, d))
			} else {
				c.Vecs = append(c.Vecs, p07vec(h, d))
			}
			if r.Intn(12) == 0 {
				c.FlushAt = append(c.FlushAt, k)
			}
		}
		for k := 0; k < 13; k++ {
			f := r.Float64()
			if r.Intn(3) == 0 {
				f = math.Pow(f, 6)
			}
			c.Rand = append(c.Rand, f+1e-9)
		}
		h.eval(fmt.Sprintf("%s n=%d d=%d max=%d ef=%d #%d", c.Metric, n, d, c.MaxConn, c.Ef, i), n > 2)
		h.try("graph", c, func() { c.run(h) })
	}
}

func TestVerifInterleaved(t *testing.T) {
	h := vstart(t, "insertions that run completely while another one has read the entrypoint but not yet drawn its level, all pairs of levels 0 to 3, up to two such insertions; list sizes, duplicates, self links, dangling links, levels and the entrypoint checked after each")
	draw := func(maxConn, level int) float64 { // a draw that yields the level
		return math.Exp(-(float64(level) + 0.5) * math.Log(float64(maxConn)))
	}
	for la := 0; la < 4; la++ {
		for lb := 0; lb < 4; lb++ {
			for lc := -1; lc < 4; lc++ {
				if !h.more() {
					return
				}
				r := h.rng
				maxConn := 3 + r.Intn(4)
				var next func() float64
				x := newIdx(idxOpt{uc: UserConfig{MaxConnections: maxConn, EFConstruction: 16}, rand: func() float64 { return next() }})
				levels := map[uint64]int{}
				in := map[string]any{"outer": la, "inner": lb, "inner2": lc, "maxConnections": maxConn, "before": levels}
				h.try("interleaved", in, func() {
					defer closeIdx(x)
					n := uint64(0)
					add := func() {
						id := n
						n++
						if err := x.Add(id, rvec(r, 3)); err != nil {
							h.fail("interleaved-add", in, "Add(%d): %v", id, err)
						}
					}
					for k := 0; k < 4+r.Intn(8); k++ {
						l := r.Intn(2)
						next = func() float64 { return draw(maxConn, l) }
						levels[n] = l
						add()
					}
					depth := 0
					inner := []int{lb, lc}
					next = func() float64 {
						if depth > 0 || len(inner) == 0 {
							return draw(maxConn, 0)
						}
						depth++
						for _, l := range inner {
							if l >= 0 {
								l := l
								keep := next
								next = func() float64 { return draw(maxConn, l) }
								add()
								next = keep
							}
						}
						return draw(maxConn, la)
					}
					add()
					all := p07snap(x, int(n))
					top := 0
					for id := uint64(0); id < n; id++ {
						v, ok := all[id]
						if !ok {
							h.fail("interleaved-missing", in, "node %d is not there", id)
							return
						}
						if v.level > top {
							top = v.level
						}
						if len(v.conns) != v.level+1 {
							h.fail("interleaved-levels", in, "node %d of level %d has %d link lists", id, v.level, len(v.conns))
							return
						}
						for l, cs := range v.conns {
							max := maxConn
							if l == 0 {
								max = 2 * maxConn
							}
							if len(cs) > max || len(p07set(cs)) != len(cs) || p07set(cs)[id] {
								h.fail("interleaved-links", in, "links of node %d on level %d: %v", id, l, cs)
								return
							}
							for _, to := range cs {
								if w, ok := all[to]; !ok || w.level < l {
									h.fail("interleaved-dangling", in, "node %d links to %d on level %d", id, to, l)
									return
								}
							}
						}
					}
					if x.currentMaximumLayer != top || all[x.entryPointID].level != top {
						h.fail("interleaved-entrypoint", in, "entrypoint %d of level %d, highest level %d recorded as %d", x.entryPointID, all[x.entryPointID].level, top, x.currentMaximumLayer)
					}
				})
				h.eval(fmt.Sprint(la, lb, lc), true)
			}
		}
	}
}

func TestVerifHeuristic(t *testing.T) {
	h := vstart(t, "random candidate queues of up to 40 vectors, every bound from 0 to 20, random deny lists; the chosen set compared with the reference choice")
	for i := 0; i < h.n(300) && h.more(); i++ {
		r := h.rng
		metric := []string{"l2", "cosine", "manhattan"}[r.Intn(3)]
		n, d, max := r.Intn(41), 1+r.Intn(5), r.Intn(21)
		vecs := map[uint64][]float32{}
		for k := 0; k < n; k++ {
			vecs[uint64(r.Intn(500))] = p07vec(h, d)
		}
		q := p07vec(h, d)
		if i%3 == 0 {
			// many candidates in directions of their own (all of them chosen) and, behind them, twins of them
			metric = []string{"l2", "manhattan"}[r.Intn(2)]
			d, max, vecs = 10+r.Intn(14), 12+r.Intn(20), map[uint64][]float32{}
			q = make([]float32, d)
			for k, ids := 0, r.Perm(500); k < d; k++ {
				v := make([]float32, d)
				v[k] = 1 + float32(r.Intn(50))/100
				vecs[uint64(ids[2*k])] = v
				if r.Intn(2) == 0 {
					w := append([]float32{}, v...)
					w[k] += 0.51 + float32(r.Intn(20))/100
					vecs[uint64(ids[2*k+1])] = w
				}
			}
		}
		deny := map[uint64]bool{}
		var dl helpers.AllowList
		if r.Intn(2) == 0 {
			dl = helpers.NewAllowList()
			for id := range vecs {
				if r.Intn(3) == 0 {
					deny[id] = true
					dl.Insert(id)
				}
			}
		}
		in := map[string]any{"metric": metric, "vectors": vecs, "query": q, "max": max, "deny": deny}
		h.eval(fmt.Sprintf("%s n=%d max=%d deny=%d #%d", metric, len(vecs), max, len(deny), i), len(vecs) > 1)
		h.try("heuristic", in, func() {
			x := newIdx(idxOpt{prov: provOf(metric), thunk: func(_ context.Context, id uint64) ([]float32, error) { return vecs[id], nil }})
			defer closeIdx(x)
			pq := priorityqueue.NewMax(len(vecs) + 1)
			var cand []scored
			for id, v := range vecs {
				dd := refDist(metric, v, q)
				pq.Insert(id, float32(dd))
				cand = append(cand, scored{id, dd})
			}
			want, ties := p07pick(cand, max, func(a, b uint64) float64 { return refDist(metric, vecs[a], vecs[b]) }, func(id uint64) bool { return deny[id] })
			if err := x.selectNeighborsHeuristic(pq, max, dl); err != nil {
				h.fail("heuristic-error", in, "%v", err)
				return
			}
			var got []uint64
			for pq.Len() > 0 {
				e := pq.Pop()
				got = append(got, e.ID)
				if !near(float64(e.Dist), refDist(metric, vecs[e.ID], q)) {
					h.fail("heuristic-dist", in, "candidate %d came back with distance %v", e.ID, e.Dist)
				}
			}
			if len(got) > max {
				h.fail("heuristic-count", in, "%d chosen, maximum %d", len(got), max)
			}
			if !ties && fmt.Sprint(p07sorted(got)) != fmt.Sprint(p07sorted(want)) {
				h.fail("heuristic-choice", in, "chose %v, reference %v", p07sorted(got), p07sorted(want))
			}
		})
	}
}

func TestVerifLists(t *testing.T) {
	h := vstart(t, "random sequences of up to 60 link list operations on one node, checked against plain slices")
	for i := 0; i < h.n(300) && h.more(); i++ {
		r := h.rng
		L := 1 + r.Intn(4)
		v := &vertex{Id: 7, Level: L - 1, Connections: make([][]uint64, L)}
		m := make([][]uint64, L)
		var ops []string
		for k := 0; k < 60; k++ {
			l := r.Intn(len(m))
			switch r.Intn(8) {
			case 0:
				n := r.Intn(6)
				a := make([]uint64, n, n+r.Intn(3))
				for q := range a {
					a[q] = uint64(r.Intn(50))
				}
				ops = append(ops, fmt.Sprintf("set %d %v", l, a))
				m[l] = append([]uint64{}, a...)
				v.setConnectionsAtLevel(l, a)
			case 1:
				ops = append(ops, fmt.Sprintf("reset %d", l))
				v.resetConnectionsAtLevelNoLock(l)
				m[l] = nil
			case 2:
				if len(m) < 6 && r.Intn(4) == 0 {
					nl := len(m) - 1 + r.Intn(3)
					ops = append(ops, fmt.Sprintf("upgrade %d", nl))
					v.upgradeToLevelNoLock(nl)
					for len(m) < nl+1 {
						m = append(m, nil)
					}
				}
			default:
				x, mx := uint64(r.Intn(50)), 1+r.Intn(12)
				ops = append(ops, fmt.Sprintf("append %d %d max %d", l, x, mx))
				v.appendConnectionAtLevelNoLock(l, x, mx)
				m[l] = append(m[l], x)
			}
			if len(v.Connections) != len(m) || v.Level != len(m)-1 {
				h.fail("lists-levels", ops, "level %d with %d lists, want %d", v.Level, len(v.Connections), len(m))
				break
			}
			bad := false
			for l := range m {
				if fmt.Sprint(append([]uint64{}, v.connectionsAtLevelNoLock(l)...)) != fmt.Sprint(append([]uint64{}, m[l]...)) {
					h.fail("lists", ops, "level %d is %v, want %v", l, v.Connections[l], m[l])
					bad = true
					break
				}
			}
			if bad {
				break
			}
		}
		h.eval(fmt.Sprint(ops), true)
	}
}
