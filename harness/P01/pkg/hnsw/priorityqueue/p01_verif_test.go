package priorityqueue

import (
	"fmt"
	"testing"
)

type qOp struct {
	Op   string
	ID   uint64
	Idx  uint64
	Dist float32
}

type qAny interface {
	insert(id, idx uint64, d float32)
	pop() qOp
	top() qOp
	ln() int
	reset()
	resetCap(n int)
}
type qPlain struct{ *Queue }

func (q qPlain) insert(id, idx uint64, d float32) { q.Insert(id, d) }
func (q qPlain) pop() qOp                          { i := q.Pop(); return qOp{ID: i.ID, Dist: i.Dist} }
func (q qPlain) top() qOp                          { i := q.Top(); return qOp{ID: i.ID, Dist: i.Dist} }
func (q qPlain) ln() int                           { return q.Len() }
func (q qPlain) reset()                            { q.Reset() }
func (q qPlain) resetCap(n int)                    { q.ResetCap(n) }

type qIdx struct{ *QueueWithIndex }

func (q qIdx) insert(id, idx uint64, d float32) { q.Insert(id, idx, d) }
func (q qIdx) pop() qOp                          { i := q.Pop(); return qOp{ID: i.ID, Idx: i.Index, Dist: i.Dist} }
func (q qIdx) top() qOp                          { i := q.Top(); return qOp{ID: i.ID, Idx: i.Index, Dist: i.Dist} }
func (q qIdx) ln() int                           { return q.Len() }
func (q qIdx) reset()                            { q.Reset() }
func (q qIdx) resetCap(n int)                    { q.ResetCap(n) }

func TestVerifQueue(t *testing.T) {
	h := vstart(t, "operation sequences of up to 400 inserts/pops/tops/resets with few distinct distances, four queue kinds, plus all insertion orders of up to 6 items")
	run := func(kind int, ops []qOp) {
		min := kind%2 == 0
		var q qAny
		switch kind {
		case 0:
			q = qPlain{NewMin(3)}
		case 1:
			q = qPlain{NewMax(0)}
		case 2:
			q = qIdx{NewMinWithIndex(3)}
		case 3:
			q = qIdx{NewMaxWithIndex(0)}
		}
		name := fmt.Sprintf("kind%d", kind)
		in := map[string]any{"kind": []string{"min", "max", "minWithIndex", "maxWithIndex"}[kind], "ops": ops}
		h.try("queue-"+name, in, func() {
			bag := map[qOp]int{}
			n := 0
			best := func() float32 {
				var b float32
				first := true
				for k := range bag {
					if first || (min && k.Dist < b) || (!min && k.Dist > b) {
						b, first = k.Dist, false
					}
				}
				return b
			}
			check := func(r qOp, what string) bool {
				if r.Dist != best() {
					h.fail("queue-order-"+what+"-"+name, in, "%s returned distance %v, extreme present is %v", what, r.Dist, best())
					return false
				}
				if bag[r] == 0 {
					h.fail("queue-bag-"+what+"-"+name, in, "%s returned %+v which is not in the queue", what, r)
					return false
				}
				return true
			}
			for _, o := range ops {
				switch o.Op {
				case "insert":
					q.insert(o.ID, o.Idx, o.Dist)
					k := qOp{ID: o.ID, Dist: o.Dist}
					if kind >= 2 {
						k.Idx = o.Idx
					}
					bag[k]++
					n++
				case "pop":
					if n == 0 {
						continue
					}
					r := q.pop()
					if !check(r, "Pop") {
						return
					}
					bag[r]--
					if bag[r] == 0 {
						delete(bag, r)
					}
					n--
				case "top":
					if n == 0 {
						continue
					}
					if !check(q.top(), "Top") {
						return
					}
				case "reset":
					q.reset()
					bag = map[qOp]int{}
					n = 0
				case "resetcap":
					q.resetCap(int(o.ID))
					bag = map[qOp]int{}
					n = 0
				}
				if q.ln() != n {
					h.fail("queue-len-"+name, in, "Len()=%d, want %d", q.ln(), n)
					return
				}
			}
			for n > 0 {
				r := q.pop()
				if !check(r, "Pop") {
					return
				}
				bag[r]--
				if bag[r] == 0 {
					delete(bag, r)
				}
				n--
			}
		})
		h.eval(in, len(ops) > 2)
	}
	// every insertion order with every rank pattern of up to 6 items, drained afterwards
	var rec func(n int, cur []int)
	rec = func(n int, cur []int) {
		if len(cur) == n {
			for kind := 0; kind < 4; kind++ {
				var ops []qOp
				for i, c := range cur {
					ops = append(ops, qOp{Op: "insert", ID: uint64(i), Idx: uint64(100 + i), Dist: float32(c)})
				}
				run(kind, ops)
			}
			return
		}
		for c := 0; c < n; c++ {
			rec(n, append(append([]int{}, cur...), c))
		}
	}
	for n := 0; n <= 5; n++ {
		rec(n, nil)
	}
	N := h.n(1500)
	for i := 0; i < N && h.more(); i++ {
		ln := h.rng.Intn(60)
		if i%20 == 0 {
			ln = 100 + h.rng.Intn(300)
		}
		rng := 1 + h.rng.Intn(12)
		pPop := 1 + h.rng.Intn(4)
		var ops []qOp
		for k := 0; k < ln; k++ {
			x := h.rng.Intn(40)
			switch {
			case x == 0:
				ops = append(ops, qOp{Op: "reset"})
			case x == 1:
				ops = append(ops, qOp{Op: "resetcap", ID: uint64(h.rng.Intn(20))})
			case x < 4:
				ops = append(ops, qOp{Op: "top"})
			case x < 4+pPop*5:
				ops = append(ops, qOp{Op: "pop"})
			default:
				d := float32(h.rng.Intn(rng)) - 3
				if h.rng.Intn(3) == 0 {
					d += h.rng.Float32()
				}
				ops = append(ops, qOp{Op: "insert", ID: uint64(h.rng.Intn(50)), Idx: uint64(h.rng.Intn(50)), Dist: d})
			}
		}
		run(i%4, ops)
	}
}
