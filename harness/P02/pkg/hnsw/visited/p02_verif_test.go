package visited

import (
	"fmt"
	"runtime"
	"sync"
	"testing"
)

type vOp struct {
	Op   string
	List int
	ID   uint64
}

func TestVerifVisitedList(t *testing.T) {
	h := vstart(t, "visit/query/reset sequences over lists of size 0..40 with ids up to 5000, including more than 256 resets")
	run := func(size int, ops []vOp) {
		in := map[string]any{"size": size, "ops": ops}
		h.try("visited-list", in, func() {
			l := NewList(size)
			set := map[uint64]bool{}
			probe := map[uint64]bool{0: true, 1: true}
			if l.Len() != size {
				h.fail("visited-newlen", in, "Len()=%d after NewList(%d)", l.Len(), size)
				return
			}
			for _, o := range ops {
				probe[o.ID] = true
				probe[o.ID+1] = true
				switch o.Op {
				case "visit":
					l.Visit(o.ID)
					set[o.ID] = true
				case "reset":
					l.Reset()
					set = map[uint64]bool{}
				case "resetN":
					for k := uint64(0); k < o.ID; k++ {
						l.Reset()
						for p := range probe {
							if l.Visited(p) {
								h.fail("visited-after-reset", in, "id %d reported visited right after reset %d", p, k)
								return
							}
						}
					}
					if o.ID > 0 {
						set = map[uint64]bool{}
					}
				}
				for p := range probe {
					if l.Visited(p) != set[p] {
						h.fail("visited-exact", in, "after %v: Visited(%d)=%v, want %v", o, p, l.Visited(p), set[p])
						return
					}
				}
			}
		})
		h.eval(in, len(ops) > 1)
	}
	// full cycle of the marker, with a visit at every point of the cycle
	for at := 0; at < 520; at += 3 {
		run(12, []vOp{{Op: "visit", ID: 7}, {Op: "visit", ID: 3}, {Op: "resetN", ID: uint64(at)}, {Op: "visit", ID: 5}, {Op: "reset"}, {Op: "visit", ID: 30}})
	}
	for i := 0; i < h.n(800) && h.more(); i++ {
		n := 1 + h.rng.Intn(25)
		var ops []vOp
		for k := 0; k < n; k++ {
			switch x := h.rng.Intn(12); {
			case x == 0:
				ops = append(ops, vOp{Op: "resetN", ID: uint64(h.rng.Intn(300))})
			case x < 3:
				ops = append(ops, vOp{Op: "reset"})
			case x < 5:
				ops = append(ops, vOp{Op: "visit", ID: uint64(h.rng.Intn(5000))})
			default:
				ops = append(ops, vOp{Op: "visit", ID: uint64(h.rng.Intn(60))})
			}
		}
		run(h.rng.Intn(40), ops)
	}
}

func TestVerifPool(t *testing.T) {
	h := vstart(t, "borrow/visit/return sequences over pools of 0..4 lists; every live borrowed list compared with its own set")
	for i := 0; i < h.n(800) && h.more(); i++ {
		size, lsize := h.rng.Intn(5), h.rng.Intn(30)
		var ops []vOp
		for k := 0; k < 40; k++ {
			ops = append(ops, vOp{Op: []string{"borrow", "visit", "visit", "visit", "return"}[h.rng.Intn(5)], List: h.rng.Intn(6), ID: uint64(h.rng.Intn(80))})
		}
		in := map[string]any{"pool": size, "list": lsize, "ops": ops}
		h.try("visited-pool", in, func() {
			p := NewPool(size, lsize)
			live := map[int]*ListSet{}
			want := map[int]map[uint64]bool{}
			for n, o := range ops {
				switch o.Op {
				case "borrow":
					if live[o.List] != nil {
						continue
					}
					l := p.Borrow()
					live[o.List] = &l
					want[o.List] = map[uint64]bool{}
					for id := uint64(0); id < 100; id++ {
						if l.Visited(id) {
							h.fail("pool-dirty", in, "op %d: freshly borrowed list already contains %d", n, id)
							return
						}
					}
				case "visit":
					if live[o.List] == nil {
						continue
					}
					live[o.List].Visit(o.ID)
					want[o.List][o.ID] = true
				case "return":
					if live[o.List] == nil {
						continue
					}
					p.Return(*live[o.List])
					delete(live, o.List)
				}
				for k, l := range live {
					for id := uint64(0); id < 90; id++ {
						if l.Visited(id) != want[k][id] {
							h.fail("pool-interference", in, "op %d: list %d id %d is %v, want %v", n, k, id, l.Visited(id), want[k][id])
							return
						}
					}
				}
			}
		})
		h.eval(in, true)
	}
}

func TestVerifPoolCycles(t *testing.T) {
	h := vstart(t, "one pool of 1..3 lists borrowed and returned 1100 times with visits in between")
	for size := 1; size <= 3; size++ {
		in := map[string]any{"pool": size, "cycles": 1100}
		h.try("pool-cycles", in, func() {
			p := NewPool(size, 16)
			for i := 0; i < 1100; i++ {
				l := p.Borrow()
				for id := uint64(0); id < 16; id++ {
					if l.Visited(id) {
						h.fail("pool-dirty-cycle", in, "borrow %d: id %d already visited", i, id)
						return
					}
				}
				a, b := uint64(i%16), uint64((i*7)%16)
				l.Visit(a)
				l.Visit(b)
				for id := uint64(0); id < 16; id++ {
					if l.Visited(id) != (id == a || id == b) {
						h.fail("pool-exact-cycle", in, "cycle %d: id %d", i, id)
						return
					}
				}
				p.Return(l)
			}
		})
		h.eval(in, true)
	}
}

func TestVerifPoolConcurrent(t *testing.T) {
	h := vstart(t, "8 goroutines borrowing, visiting their own ids and returning lists of one pool of 1..8 lists, 3000 rounds each")
	for size := 1; size <= 8 && h.more(); size += 3 {
		in := map[string]any{"pool": size, "goroutines": 8, "rounds": 3000}
		h.try("pool-concurrent", in, func() {
			p := NewPool(size, 64)
			var wg sync.WaitGroup
			errs := make([]string, 8)
			for g := 0; g < 8; g++ {
				wg.Add(1)
				go func(g int) {
					defer wg.Done()
					defer func() {
						if r := recover(); r != nil {
							errs[g] = fmt.Sprintf("panic: %v", r)
						}
					}()
					for k := 0; k < 3000; k++ {
						l := p.Borrow()
						for id := 0; id < 64; id++ {
							if l.Visited(uint64(id)) {
								errs[g] = fmt.Sprintf("round %d: freshly borrowed list already contains %d", k, id)
								return
							}
						}
						for j := 0; j < 8; j++ {
							l.Visit(uint64(g*8 + j))
							if k%16 == 0 {
								runtime.Gosched()
							}
						}
						for id := 0; id < 64; id++ {
							if l.Visited(uint64(id)) != (id/8 == g) {
								errs[g] = fmt.Sprintf("round %d: goroutine %d sees id %d visited=%v", k, g, id, l.Visited(uint64(id)))
								return
							}
						}
						p.Return(l)
					}
				}(g)
			}
			wg.Wait()
			for _, e := range errs {
				if e != "" {
					h.fail("pool-concurrent-isolation", in, "%s", e)
					return
				}
			}
		})
		h.eval(in, true)
	}
}
