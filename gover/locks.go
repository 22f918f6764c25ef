package main

import (
	"go/token"
	"go/types"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// Locks. The state of every mutex is part of the verified state: component L:<place> counts how
// often the calling goroutine holds the lock (writeHeld per Lock, 1 per RLock). The frame
// condition at every exit then says that a function releases what it took, on every path; a
// declaration "guarded T.f by lock" adds an obligation at each access of the field.

const writeHeld = 1 << 20

var lockDelta = map[string]int64{
	"sync.Mutex.Lock": writeHeld, "sync.Mutex.Unlock": -writeHeld,
	"sync.RWMutex.Lock": writeHeld, "sync.RWMutex.Unlock": -writeHeld,
	"sync.RWMutex.RLock": 1, "sync.RWMutex.RUnlock": -1,
}

func isLockCall(k string) bool { return lockDelta[k] != 0 }

// lockPlace names the component and position of a lock; comp is "" when it is not tracked.
func (j *Job) lockPlace(v Val) (comp string, ref, idx *Term) {
	if v.lv == nil {
		if v.t == nil {
			return "", nil, nil
		}
		// the pointer of a field, read from the state the function started in
		if v.t.op == "select" {
			for m := range j.compSort {
				if strings.HasPrefix(m, "F:") && v.t.args[0].op == "const:"+sanitize(m+"@0") {
					return "L:" + m, v.t.args[1], nil
				}
			}
		}
		return "L:*", v.t, nil
	}
	l := v.lv
	suffix := ""
	for _, p := range l.path {
		if p.idx != nil {
			return "", nil, nil
		}
		suffix += "." + itoa(p.field)
	}
	switch l.kind {
	case lvField:
		return "L:" + l.comp + suffix, l.ref, nil
	case lvElem:
		return "L:" + l.comp + suffix, l.ref, l.idx
	case lvRef:
		return "L:*" + suffix, l.ref, nil
	case lvStruct:
		return "L:*", l.ref, nil
	}
	return "", nil, nil
}

func itoa(n int) string {
	if n < 10 {
		return string(rune('0' + n))
	}
	return itoa(n/10) + itoa(n%10)
}

func (j *Job) lockLevel(s *State, comp string, ref, idx *Term) *Term {
	c := j.c
	if idx != nil {
		return c.Select(c.Select(j.get(s, comp, SArr(SInt, SArr(SInt, SInt))), ref), idx)
	}
	return c.Select(j.get(s, comp, SArr(SInt, SInt)), ref)
}

func (j *Job) setLockLevel(s *State, comp string, ref, idx, v *Term) {
	c := j.c
	if idx != nil {
		h := j.get(s, comp, SArr(SInt, SArr(SInt, SInt)))
		s.heap[comp] = c.Store(h, ref, c.Store(c.Select(h, ref), idx, v))
		return
	}
	s.heap[comp] = c.Store(j.get(s, comp, SArr(SInt, SInt)), ref, v)
}

// lockFloor: on entry no lock is held a negative number of times.
func (j *Job) lockFloor(s *State, comp string, ref, idx *Term) {
	c := j.c
	if idx != nil {
		j.assume(s, c.Le(c.Int(0), c.Select(c.Select(c.Const(comp+"@0", SArr(SInt, SArr(SInt, SInt))), ref), idx)))
		return
	}
	j.assume(s, c.Le(c.Int(0), c.Select(c.Const(comp+"@0", SArr(SInt, SInt)), ref)))
}

// lockArg: a lock behind a pointer in a field is taken to be the field's own.
func (j *Job) lockArg(s *State, a ssa.Value, v Val) Val {
	if u, ok := a.(*ssa.UnOp); ok && u.Op == token.MUL {
		if fa, ok := u.X.(*ssa.FieldAddr); ok {
			if l, ok := s.env[fa]; ok && l.lv != nil {
				j.note("locks behind pointers in different fields are different and never replaced")
				return l
			}
		}
	}
	return v
}

// lockCall performs Lock, Unlock, RLock and RUnlock; cond (if any) tells whether it happens.
func (j *Job) lockCall(s *State, key string, recv Val, cond *Term, pos token.Pos) {
	c := j.c
	comp, ref, idx := j.lockPlace(recv)
	if comp == "" {
		return
	}
	j.note("a lock is a counter per goroutine: what it protects does not change while it is held, blocking is not modelled")
	j.lockFloor(s, comp, ref, idx)
	if lockDelta[key] > 0 {
		j.notHeld(s, comp, ref, idx, lockDelta[key] == writeHeld, comp[2:], pos)
	}
	d := c.Int(lockDelta[key])
	old := j.lockLevel(s, comp, ref, idx)
	nw := c.Add(old, d)
	if cond != nil {
		nw = c.Ite(cond, nw, old)
	}
	j.setLockLevel(s, comp, ref, idx, nw)
}

// ---- guarded fields

type guard struct {
	typ, field, lock string
	writes           bool  // only writes are guarded
	shards           int64 // element i of the field is guarded by lock[i mod shards], the field itself by all of them
}

// guardOf: the guard of the field an address, a loaded map or an element denotes.
func (j *Job) guardOf(v ssa.Value) (*guard, *ssa.FieldAddr, ssa.Value) {
	var idx ssa.Value
	if ix, ok := v.(*ssa.IndexAddr); ok {
		idx = ix.Index
		v = ix.X
		if u, ok := v.(*ssa.UnOp); !ok || u.Op != token.MUL {
			return nil, nil, nil
		}
	}
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		v = u.X
	}
	fa, ok := v.(*ssa.FieldAddr)
	if !ok {
		return nil, nil, nil
	}
	pt, ok := fa.X.Type().Underlying().(*types.Pointer)
	if !ok {
		return nil, nil, nil
	}
	st, ok := pt.Elem().Underlying().(*types.Struct)
	if !ok {
		return nil, nil, nil
	}
	return j.p.specs.guards[structName(pt.Elem())+"."+st.Field(fa.Field).Name()], fa, idx
}

// access obliges the lock of a guarded field to be held, unless the object is new.
func (j *Job) access(s *State, v ssa.Value, write bool, pos token.Pos) {
	if len(j.p.specs.guards) == 0 {
		return
	}
	g, fa, idx := j.guardOf(v)
	if g == nil || g.writes && !write {
		return
	}
	base := j.val(s, fa.X)
	if base.t == nil {
		return
	}
	c := j.c
	if x := j.spec.opts["exclusive"]; x != "" {
		// an object nobody else can reach yet
		if v, ok := j.topVars[x]; ok && v.v.t == base.t {
			return
		}
	}
	need, what := c.Int(1), "read"
	if write {
		need, what = c.Int(writeHeld), "write"
	}
	var goal *Term
	if g.shards == 0 {
		// of several locks, a reader needs one and a writer all
		var gs []*Term
		for _, l := range strings.Split(g.lock, ",") {
			lvl := j.fieldLockLevel(s, base.t, fa.X.Type(), l)
			if lvl == nil {
				return
			}
			gs = append(gs, c.Le(need, lvl))
		}
		if write {
			goal = c.And(gs...)
		} else {
			goal = c.Or(gs...)
		}
	} else {
		lv := j.lockField(base.t, fa.X.Type(), g.lock)
		if lv == nil {
			return
		}
		sl := j.rootGet(s, lv).t
		el := lv.root.Underlying().(*types.Slice).Elem()
		row := c.Select(j.get(s, "L:"+elemComp(el), SArr(SInt, SArr(SInt, SInt))), c.Acc(sl, 0))
		q := c.BoundVar("q", SInt)
		q0 := c.Select(c.Select(c.Const("L:"+elemComp(el)+"@0", SArr(SInt, SArr(SInt, SInt))), c.Acc(sl, 0)), q)
		j.assume(s, c.Forall([]*Term{q}, c.Le(c.Int(0), q0), []*Term{q0}))
		at := func(k *Term) *Term { return c.Le(need, c.Select(row, c.Add(c.Acc(sl, 1), k))) }
		k := c.BoundVar("k", SInt)
		in := c.And(c.Le(c.Int(0), k), c.Lt(k, c.Int(g.shards)))
		switch {
		case idx != nil:
			goal = at(c.ModT(j.val(s, idx).t, c.Int(g.shards)))
		case write:
			goal = c.Forall([]*Term{k}, c.Imp(in, at(k)))
		default:
			goal = c.Not(c.Forall([]*Term{k}, c.Not(c.And(in, at(k)))))
		}
	}
	goal = c.Imp(c.Lt(base.t, j.alloc0), goal)
	if goal == c.True {
		return
	}
	j.obls = append(j.obls, &Obl{name: what + " of " + g.typ + "." + g.field + " without holding " + g.lock, guard: s.guard, goal: goal, facts: s.facts, pos: pos})
}

func (j *Job) lockField(ref *Term, pt types.Type, f string) *LV {
	p, ok := pt.Underlying().(*types.Pointer)
	if !ok {
		return nil
	}
	st, ok := p.Elem().Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == f {
			return j.fieldLV(ref, p.Elem(), i)
		}
	}
	return nil
}

// fieldLockLevel: how the lock in field f of the object ref points to is held.
func (j *Job) fieldLockLevel(s *State, ref *Term, pt types.Type, f string) *Term {
	lv := j.lockField(ref, pt, f)
	if lv == nil {
		return nil
	}
	return j.lockLevel(s, "L:"+lv.comp, ref, nil)
}

func isLockComp(m string) bool { return strings.HasPrefix(m, "L:") }

// ---- locks are not taken twice

// acq: a lock a function takes, as a field of one of its parameters.
type acq struct {
	param int
	field string
	write bool
}

var acqMu sync.Mutex

// acquires lists the locks fn takes (itself or through the functions it calls) on fields of its
// parameters. Closures and goroutines are left out.
func (p *Program) acquires(fn *ssa.Function) []acq {
	acqMu.Lock()
	defer acqMu.Unlock()
	if p.acqs == nil {
		p.acqs = map[*ssa.Function][]acq{}
	}
	return p.acquires1(fn, map[*ssa.Function]bool{})
}

func (p *Program) acquires1(fn *ssa.Function, busy map[*ssa.Function]bool) []acq {
	if r, ok := p.acqs[fn]; ok {
		return r
	}
	if busy[fn] || len(fn.Blocks) == 0 || fn.Pkg == nil || !strings.Contains(fn.Pkg.Pkg.Path(), "/FaVe") {
		return nil
	}
	busy[fn] = true
	seen := map[acq]bool{}
	var out []acq
	add := func(a acq) {
		if !seen[a] {
			seen[a] = true
			out = append(out, a)
		}
	}
	param := func(v ssa.Value) int {
		for i, q := range fn.Params {
			if q == v {
				return i
			}
		}
		return -1
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			call, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			f := call.Call.StaticCallee()
			if f == nil {
				continue
			}
			if d := lockDelta[fnKey(f)]; d > 0 {
				v := call.Call.Args[0]
				if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
					v = u.X
				}
				if fa, ok := v.(*ssa.FieldAddr); ok {
					if i := param(fa.X); i >= 0 {
						st := fa.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
						add(acq{i, st.Field(fa.Field).Name(), d == writeHeld})
					}
				}
				continue
			}
			for _, a := range p.acquires1(f, busy) {
				if a.param < len(call.Call.Args) {
					if i := param(call.Call.Args[a.param]); i >= 0 {
						add(acq{i, a.field, a.write})
					}
				}
			}
		}
	}
	busy[fn] = false
	if len(busy) == 1 || !anyBusy(busy) {
		p.acqs[fn] = out
	}
	return out
}

func anyBusy(m map[*ssa.Function]bool) bool {
	for _, b := range m {
		if b {
			return true
		}
	}
	return false
}

// notHeld obliges a lock about to be taken not to be held since the function was entered.
func (j *Job) notHeld(s *State, comp string, ref, idx *Term, write bool, what string, pos token.Pos) {
	if j.inGo > 0 {
		return
	}
	c := j.c
	lvl := j.lockLevel(s, comp, ref, idx)
	var lvl0 *Term
	if idx != nil {
		lvl0 = c.Select(c.Select(c.Const(comp+"@0", SArr(SInt, SArr(SInt, SInt))), ref), idx)
	} else {
		lvl0 = c.Select(c.Const(comp+"@0", SArr(SInt, SInt)), ref)
	}
	if lvl == lvl0 {
		return
	}
	goal := c.Le(lvl, lvl0)
	if !write {
		goal = c.Lt(lvl, c.Add(lvl0, c.Int(writeHeld)))
	}
	if goal == c.True {
		return
	}
	j.oblige(s, goal, "lock taken twice: "+what, pos, nil)
}

// calleeLocks: what a function called through its contract locks must be free.
func (j *Job) calleeLocks(s *State, key string, args []Val, ats []types.Type, pos token.Pos) {
	fn := j.p.fns[key]
	if fn == nil || j.inGo > 0 {
		return
	}
	for _, a := range j.p.acquires(fn) {
		if a.param >= len(args) || args[a.param].t == nil {
			continue
		}
		ref := args[a.param].t
		lv := j.lockField(ref, fn.Params[a.param].Type(), a.field)
		if lv == nil {
			continue
		}
		j.notHeld(s, "L:"+lv.comp, ref, nil, a.write, a.field+" in "+key, pos)
	}
}
