package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- values

type Val struct {
	t      *Term
	lv     *LV
	fn     *FuncVal
	tup    []Val
	iter   *Iter
	poison string
}

type FuncVal struct {
	fn    *ssa.Function
	binds []Val
	bound Val // method value receiver
}

type Iter struct {
	id   string
	m    *Term
	typ  *types.Map
	dom0 *Term
	str  *Term
}

type step struct {
	field int
	idx   *Term
	typ   types.Type // type after the step
}

const (
	lvCell = iota
	lvField
	lvElem
	lvRef
	lvGlobal
	lvStruct // whole struct behind a ref
)

type LV struct {
	kind int
	cell int
	comp string
	ref  *Term
	idx  *Term
	root types.Type // type of the value at the root (before path)
	path []step
}

func (l *LV) typ() types.Type {
	if len(l.path) > 0 {
		return l.path[len(l.path)-1].typ
	}
	return l.root
}

func (l *LV) extend(s step) *LV {
	n := *l
	n.path = append(append([]step{}, l.path...), s)
	return &n
}

func (a *LV) same(b *LV) bool {
	if a.kind != b.kind || a.cell != b.cell || a.comp != b.comp || a.ref != b.ref || a.idx != b.idx || len(a.path) != len(b.path) {
		return false
	}
	for i := range a.path {
		if a.path[i].field != b.path[i].field || a.path[i].idx != b.path[i].idx {
			return false
		}
	}
	return true
}

// ---------------------------------------------------------------- states

type FNode struct {
	id      int
	parents []*FNode
	fact    *Term
}

type deferred struct {
	call *ssa.CallCommon
	fn   Val
	args []Val
	pos  token.Pos
	cond *Term // when not always registered
}

type State struct {
	guard  *Term
	facts  *FNode
	env    map[ssa.Value]Val
	heap   map[string]*Term
	cells  map[int]Val
	alloc  *Term
	ghost  map[string]*Term
	defers []deferred
}

func (s *State) clone() *State {
	n := *s
	n.env = make(map[ssa.Value]Val, len(s.env)+8)
	for k, v := range s.env {
		n.env[k] = v
	}
	n.heap = make(map[string]*Term, len(s.heap)+4)
	for k, v := range s.heap {
		n.heap[k] = v
	}
	n.cells = make(map[int]Val, len(s.cells)+4)
	for k, v := range s.cells {
		n.cells[k] = v
	}
	n.ghost = make(map[string]*Term, len(s.ghost))
	for k, v := range s.ghost {
		n.ghost[k] = v
	}
	n.defers = append([]deferred{}, s.defers...)
	return &n
}

func (j *Job) assume(st *State, t *Term) {
	if j.sink != nil {
		st = j.sink
	}
	if t == j.c.True {
		return
	}
	j.fctr++
	st.facts = &FNode{id: j.fctr, parents: []*FNode{st.facts}, fact: j.c.Imp(st.guard, t)}
}

func (j *Job) gather(n *FNode) []*Term {
	seen := map[*FNode]bool{}
	var all []*FNode
	var stack []*FNode
	stack = append(stack, n)
	for len(stack) > 0 {
		x := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		if x == nil || seen[x] {
			continue
		}
		seen[x] = true
		all = append(all, x)
		stack = append(stack, x.parents...)
	}
	sort.Slice(all, func(i, k int) bool { return all[i].id < all[k].id })
	var out []*Term
	done := map[*Term]bool{}
	for _, x := range all {
		if x.fact != nil && !done[x.fact] {
			done[x.fact] = true
			out = append(out, x.fact)
		}
	}
	return out
}

// branch refines the state by a condition.
func (j *Job) branch(st *State, cond *Term) *State {
	c := j.c
	n := st.clone()
	if cond == c.True || j.lits[cond] {
		return n
	}
	if cond == c.False || j.lits[c.Not(cond)] {
		n.guard = c.False
		return n
	}
	g := c.Fresh("g", SBool)
	j.fctr++
	n.facts = &FNode{id: j.fctr, parents: []*FNode{st.facts}, fact: c.Eq(g, c.And(st.guard, cond))}
	n.guard = g
	return n
}

func (j *Job) merge(sts []*State) *State {
	c := j.c
	var live []*State
	for _, s := range sts {
		if s.guard != c.False {
			live = append(live, s)
		}
	}
	if len(live) == 0 {
		if len(sts) > 0 {
			return sts[0]
		}
		return nil
	}
	if len(live) == 1 {
		return live[0]
	}
	out := live[0].clone()
	var gs []*Term
	var ps []*FNode
	for _, s := range live {
		gs = append(gs, s.guard)
		ps = append(ps, s.facts)
	}
	g := c.Fresh("m", SBool)
	j.fctr++
	out.facts = &FNode{id: j.fctr, parents: ps, fact: c.Eq(g, c.Or(gs...))}
	out.guard = g
	// env
	for k := range out.env {
		vs := make([]Val, 0, len(live))
		ok := true
		for _, s := range live {
			v, has := s.env[k]
			if !has {
				ok = false
				break
			}
			vs = append(vs, v)
		}
		if !ok {
			delete(out.env, k)
			continue
		}
		out.env[k] = j.mergeVals(gs, vs, k.Type())
	}
	cells := map[int]bool{}
	for _, s := range live {
		for k := range s.cells {
			cells[k] = true
		}
	}
	for k := range cells {
		vs := make([]Val, 0, len(live))
		ok := true
		for _, s := range live {
			v, has := s.cells[k]
			if !has {
				ok = false
				break
			}
			vs = append(vs, v)
		}
		if !ok {
			delete(out.cells, k)
			// a cell only allocated on one side: keep it (dead on the others)
			for _, s := range live {
				if v, has := s.cells[k]; has {
					out.cells[k] = v
				}
			}
			continue
		}
		out.cells[k] = j.mergeVals(gs, vs, nil)
	}
	comps := map[string]bool{}
	for _, s := range live {
		for k := range s.heap {
			comps[k] = true
		}
	}
	for k := range comps {
		ts := make([]*Term, len(live))
		for i, s := range live {
			ts[i] = j.get(s, k, j.compSort[k])
		}
		out.heap[k] = j.iteN(gs, ts)
	}
	ghs := map[string]bool{}
	for _, s := range live {
		for k := range s.ghost {
			ghs[k] = true
		}
	}
	for k := range ghs {
		ts := make([]*Term, 0, len(live))
		ok := true
		for _, s := range live {
			if t, has := s.ghost[k]; has {
				ts = append(ts, t)
			} else if v := j.ghostInit(k); v != nil {
				ts = append(ts, v)
			} else {
				ok = false
			}
		}
		if ok {
			out.ghost[k] = j.iteN(gs, ts)
		} else {
			delete(out.ghost, k)
		}
	}
	var al []*Term
	for _, s := range live {
		al = append(al, s.alloc)
	}
	out.alloc = j.iteN(gs, al)
	// defers
	common := len(live[0].defers)
	for _, s := range live[1:] {
		k := 0
		for k < common && k < len(s.defers) && s.defers[k].call == live[0].defers[k].call && s.defers[k].cond == live[0].defers[k].cond {
			k++
		}
		common = k
	}
	out.defers = append([]deferred{}, live[0].defers[:common]...)
	for i, s := range live {
		// the choice iteN makes
		sel := c.True
		for _, g := range gs[:i] {
			sel = c.And(sel, c.Not(g))
		}
		if i < len(gs)-1 {
			sel = c.And(sel, gs[i])
		}
		for _, d := range s.defers[common:] {
			if d.cond == nil {
				d.cond = sel
			} else {
				d.cond = c.And(sel, d.cond)
			}
			out.defers = append(out.defers, d)
		}
	}
	return out
}

func (j *Job) iteN(gs, ts []*Term) *Term {
	r := ts[len(ts)-1]
	for i := len(ts) - 2; i >= 0; i-- {
		r = j.c.Ite(gs[i], ts[i], r)
	}
	return r
}

func (j *Job) mergeVals(gs []*Term, vs []Val, t types.Type) Val {
	a := vs[0]
	same := true
	for _, b := range vs[1:] {
		if !sameVal(a, b) {
			same = false
			break
		}
	}
	if same {
		return a
	}
	if len(a.tup) > 0 {
		out := Val{}
		for i := range a.tup {
			var xs []Val
			for _, v := range vs {
				if len(v.tup) != len(a.tup) {
					return Val{poison: "merge"}
				}
				xs = append(xs, v.tup[i])
			}
			out.tup = append(out.tup, j.mergeVals(gs, xs, nil))
		}
		return out
	}
	var ts []*Term
	for _, v := range vs {
		tt := v.t
		if tt == nil && v.fn != nil {
			tt = j.fnTerm(v.fn)
		}
		if tt == nil {
			return Val{poison: "merge of distinct pointers"}
		}
		if len(ts) > 0 && ts[0].sort != tt.sort {
			return Val{poison: "merge sorts"}
		}
		ts = append(ts, tt)
	}
	return Val{t: j.iteN(gs, ts)}
}

func sameVal(a, b Val) bool {
	if a.t != nil || b.t != nil {
		return a.t == b.t
	}
	if a.lv != nil && b.lv != nil {
		return a.lv.same(b.lv)
	}
	if a.iter != nil {
		return a.iter == b.iter
	}
	if len(a.tup) != len(b.tup) {
		return false
	}
	if len(a.tup) > 0 {
		for i := range a.tup {
			if !sameVal(a.tup[i], b.tup[i]) {
				return false
			}
		}
		return true
	}
	if a.fn != nil && b.fn != nil {
		if a.fn == b.fn {
			return true
		}
		if a.fn.fn != b.fn.fn || len(a.fn.binds) != len(b.fn.binds) {
			return false
		}
		for i := range a.fn.binds {
			if !sameVal(a.fn.binds[i], b.fn.binds[i]) {
				return false
			}
		}
		return true
	}
	return false
}

// ---------------------------------------------------------------- unsupported

type unsupported struct{ msg string }

func (j *Job) unsup(pos token.Pos, f string, a ...any) {
	p := ""
	if pos.IsValid() {
		p = j.p.pos(pos) + ": "
	}
	panic(unsupported{p + fmt.Sprintf(f, a...)})
}

func (j *Job) note(s string) { j.notes[s] = true }

// ---------------------------------------------------------------- memory

func (j *Job) fresh(st *State, hint string, t types.Type) *Term {
	x := j.c.Fresh(hint, j.sortOf(t))
	j.wf(st, x, t)
	return x
}

// freshVal makes an unknown value of a type (tuples included).
func (j *Job) freshVal(st *State, hint string, t types.Type) Val {
	if tp, ok := t.(*types.Tuple); ok {
		v := Val{tup: []Val{}}
		for i := 0; i < tp.Len(); i++ {
			v.tup = append(v.tup, j.freshVal(st, fmt.Sprintf("%s_%d", hint, i), tp.At(i).Type()))
		}
		return v
	}
	return Val{t: j.fresh(st, hint, t)}
}

// wf assumes the facts every value of the Go type satisfies.
func (j *Job) wf(st *State, x *Term, t types.Type) { j.wfo(st, x, t, true) }
func (j *Job) wfo(st *State, x *Term, t types.Type, off bool) {
	for _, f := range j.wfFacts(st, x, t, 0, off) {
		j.assume(st, f)
	}
}

func (j *Job) wfFacts(st *State, x *Term, t types.Type, depth int, off bool) []*Term {
	c := j.c
	if x.n != nil || isTypeParam(t) {
		return nil
	}
	if bits, signed, ok := intInfo(t); ok {
		lo, hi := intRange(bits, signed)
		if _, _, k := c.interval(x); !k {
			if !x.bound {
				c.SetRange(x, lo, hi)
			}
		}
		// build directly: the simplifier already assumes the range
		return []*Term{c.mk("<=", SBool, c.BigInt(lo), x), c.mk("<=", SBool, x, c.BigInt(hi))}
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		if x.op == "mk:Slc" {
			return nil
		}
		a, l, k := c.Acc(x, 0), c.Acc(x, 2), c.Acc(x, 3)
		z := c.Int(0)
		of := c.True
		if off {
			if x.op != "ite" {
				c.zeroOff[x] = true
				of = c.mk("=", SBool, c.mk("acc:s_off", SInt, x), z)
			}
		} else {
			of = c.mk("<=", SBool, z, c.Acc(x, 1))
		}
		return []*Term{
			c.mk("<=", SBool, z, l), c.Le(l, k), c.mk("<=", SBool, k, c.BigInt(maxLen)), of,
			c.Le(z, a), c.Lt(a, st.alloc), c.Imp(c.Eq(a, z), c.And(c.Eq(k, z), c.Eq(l, z)))}
	case *types.Pointer, *types.Map, *types.Chan:
		return []*Term{c.Le(c.Int(0), x), c.Lt(x, st.alloc)}
	case *types.Interface, *types.Signature:
		return []*Term{c.Le(c.Int(0), x)}
	case *types.Struct:
		if depth > 3 || strings.HasPrefix(x.op, "mk:") {
			return nil
		}
		var out []*Term
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == "_" {
				continue
			}
			out = append(out, j.wfFacts(st, c.Acc(x, i), u.Field(i).Type(), depth+1, off)...)
		}
		return out
	}
	return nil
}

func (j *Job) newRef(st *State) *Term {
	r := st.alloc
	st.alloc = j.c.Add(st.alloc, j.c.Int(1))
	return r
}

func (j *Job) fieldLV(ref *Term, structT types.Type, i int) *LV {
	u := structT.Underlying().(*types.Struct)
	f := u.Field(i)
	return &LV{kind: lvField, comp: j.regComp(fieldComp(structT, f.Name()), j.fieldSort(f.Type())), ref: ref, root: f.Type()}
}

func (j *Job) elemLV(slc *Term, elem types.Type, i *Term) *LV {
	c := j.c
	return &LV{kind: lvElem, comp: j.regComp(elemComp(elem), j.elemArr(elem)), ref: c.Acc(slc, 0), idx: c.Add(c.Acc(slc, 1), i), root: elem}
}

// ptrLV turns a pointer value into an lvalue.
func (j *Job) ptrLV(v Val, pt types.Type) *LV {
	if v.lv != nil {
		return v.lv
	}
	if v.poison != "" {
		j.unsup(token.NoPos, "use of unmerged pointer (%s)", v.poison)
	}
	if v.t == nil {
		j.unsup(token.NoPos, "dereference of a non-pointer value")
	}
	e := pt.Underlying().(*types.Pointer).Elem()
	switch u := e.Underlying().(type) {
	case *types.Struct:
		if !isTypeParam(e) {
			return &LV{kind: lvStruct, ref: v.t, root: e}
		}
	case *types.Array:
		return &LV{kind: lvRef, comp: j.regComp(elemComp(u.Elem()), j.elemArr(u.Elem())), ref: v.t, root: e}
	}
	return &LV{kind: lvRef, comp: j.regComp(cellComp(e), j.fieldSort(e)), ref: v.t, root: e}
}

func (j *Job) rootGet(st *State, l *LV) Val {
	c := j.c
	switch l.kind {
	case lvCell:
		v, ok := st.cells[l.cell]
		if !ok {
			j.unsup(token.NoPos, "read of an out-of-scope local cell")
		}
		return v
	case lvField, lvRef:
		return Val{t: c.Select(j.get(st, l.comp, j.compSort[l.comp]), l.ref)}
	case lvElem:
		return Val{t: c.Select(c.Select(j.get(st, l.comp, j.compSort[l.comp]), l.ref), l.idx)}
	case lvGlobal:
		return Val{t: j.get(st, l.comp, j.compSort[l.comp])}
	case lvStruct:
		u := l.root.Underlying().(*types.Struct)
		var as []*Term
		s := j.sortOf(l.root)
		for i := 0; i < u.NumFields(); i++ {
			fl := j.fieldLV(l.ref, l.root, i)
			as = append(as, j.rootGet(st, fl).t)
		}
		return Val{t: c.Mk(s, as...)}
	}
	panic("rootGet")
}

func (j *Job) rootSet(st *State, l *LV, v Val) {
	c := j.c
	if l.kind == lvCell {
		st.cells[l.cell] = v
		return
	}
	t := j.term(st, v, l.root)
	if t.sort == SSlc {
		t = j.normSlice(st, t, l.root)
	}
	switch l.kind {
	case lvField, lvRef:
		h := j.get(st, l.comp, j.compSort[l.comp])
		st.heap[l.comp] = c.Store(h, l.ref, t)
	case lvElem:
		h := j.get(st, l.comp, j.compSort[l.comp])
		st.heap[l.comp] = c.Store(h, l.ref, c.Store(c.Select(h, l.ref), l.idx, t))
	case lvGlobal:
		st.heap[l.comp] = t
	case lvStruct:
		u := l.root.Underlying().(*types.Struct)
		for i := 0; i < u.NumFields(); i++ {
			j.rootSet(st, j.fieldLV(l.ref, l.root, i), Val{t: c.Acc(t, i)})
		}
	}
}

func (j *Job) load(st *State, l *LV) Val {
	if l.kind == lvStruct && len(l.path) > 0 && l.path[0].idx == nil {
		nl := j.fieldLV(l.ref, l.root, l.path[0].field)
		nl.path = l.path[1:]
		return j.load(st, nl)
	}
	v := j.rootGet(st, l)
	for _, s := range l.path {
		if v.t == nil {
			j.unsup(token.NoPos, "path into a non-term value")
		}
		if s.idx != nil {
			v = Val{t: j.c.Select(v.t, s.idx)}
		} else {
			v = Val{t: j.c.Acc(v.t, s.field)}
		}
	}
	if v.t != nil && v.t.sort == SSlc && l.kind != lvCell && v.t.op != "ite" && v.t.op != "mk:Slc" {
		j.c.zeroOff[v.t] = true
	}
	if v.t != nil && !v.t.bound {
		j.wfLoad(st, v.t, l.typ(), l.kind != lvCell)
		if fv, ok := j.fnByTerm[v.t]; ok {
			v.fn = fv
		}
	}
	return v
}

// wfLoad assumes well-formedness of a loaded value once per state chain.
func (j *Job) wfLoad(st *State, t *Term, typ types.Type, off bool) {
	if t.n != nil || isLit(t) || t == j.c.True || t == j.c.False {
		return
	}
	switch u := typ.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsInteger == 0 {
			return
		}
	case *types.Struct:
		return // projections get theirs when loaded
	}
	if t.op == "ite" {
		// a merged value: facts hold of both branches
	}
	j.wfo(st, t, typ, off)
}

func (j *Job) store(st *State, l *LV, v Val) {
	if l.kind == lvStruct && len(l.path) > 0 && l.path[0].idx == nil {
		nl := j.fieldLV(l.ref, l.root, l.path[0].field)
		nl.path = l.path[1:]
		j.store(st, nl, v)
		return
	}
	if len(l.path) == 0 {
		j.rootSet(st, l, v)
		return
	}
	nt := j.term(st, v, l.typ())
	root := j.rootGet(st, l)
	if root.t == nil {
		j.unsup(token.NoPos, "partial store into a non-term cell")
	}
	j.rootSet(st, l, Val{t: j.updPath(root.t, l.path, nt)})
}

func (j *Job) updPath(t *Term, path []step, v *Term) *Term {
	if len(path) == 0 {
		return v
	}
	s := path[0]
	if s.idx != nil {
		return j.c.Store(t, s.idx, j.updPath(j.c.Select(t, s.idx), path[1:], v))
	}
	return j.c.Upd(t, s.field, j.updPath(j.c.Acc(t, s.field), path[1:], v))
}

// normSlice re-bases a sub-slice stored in memory at offset 0 of its own array
// (aliasing with the parent slice is dropped; recorded as an assumption).
func (j *Job) normSlice(st *State, t *Term, typ types.Type) *Term {
	c := j.c
	o := c.Acc(t, 1)
	if o.n != nil && o.n.Sign() == 0 {
		return t
	}
	sl, ok := typ.Underlying().(*types.Slice)
	if !ok {
		return t
	}
	if t.op == "ite" {
		return c.Ite(t.args[0], j.normSlice(st, t.args[1], typ), j.normSlice(st, t.args[2], typ))
	}
	j.note("sub-slices stored in memory are re-based: aliasing with the parent slice is not tracked")
	comp := j.regComp(elemComp(sl.Elem()), j.elemArr(sl.Elem()))
	h := j.get(st, comp, j.compSort[comp])
	r := j.newRef(st)
	_, as := arrParts(h.sort)
	nc := c.Fresh("rebase", as)
	old := c.Select(h, c.Acc(t, 0))
	i := c.BoundVar("i", SInt)
	j.assume(st, c.Forall([]*Term{i}, c.Eq(c.Select(nc, i), c.Select(old, c.Add(o, i))), []*Term{c.Select(nc, i)}))
	st.heap[comp] = c.Store(h, r, nc)
	return c.Mk(SSlc, r, c.Int(0), c.Acc(t, 2), c.Acc(t, 3))
}

// term converts a value to an SMT term.
func (j *Job) term(st *State, v Val, t types.Type) *Term {
	if v.t != nil {
		return v.t
	}
	if v.fn != nil {
		return j.fnTerm(v.fn)
	}
	if v.lv != nil {
		// pointer to a whole heap struct is its ref
		if v.lv.kind == lvStruct && len(v.lv.path) == 0 {
			return v.lv.ref
		}
		if v.lv.kind == lvRef && len(v.lv.path) == 0 {
			return v.lv.ref
		}
		j.unsup(token.NoPos, "interior pointer escapes")
	}
	if v.poison != "" {
		j.unsup(token.NoPos, "use of unmerged value (%s)", v.poison)
	}
	j.unsup(token.NoPos, "value has no term form")
	return nil
}

func (j *Job) fnTerm(f *FuncVal) *Term {
	if f.fn == nil {
		return j.c.Int(0)
	}
	if len(f.binds) == 0 && f.bound.t == nil && f.bound.lv == nil {
		if t, ok := j.fnIDs[f.fn]; ok {
			return t
		}
		t := j.c.Int(int64(1000000 + j.fnNum(f.fn)))
		j.fnIDs[f.fn] = t
		j.fnByTerm[t] = f
		return t
	}
	for t, g := range j.fnByTerm {
		if g == f {
			return t
		}
	}
	j.fnCtr++
	t := j.c.Int(int64(2000000 + j.fnCtr))
	j.fnByTerm[t] = f
	return t
}

// ---------------------------------------------------------------- maps

func (j *Job) mapComps(m *types.Map) (dom, val, ln string) {
	k := mapKey(m)
	ks, vs := j.sortOf(m.Key()), j.sortOf(m.Elem())
	dom = j.regComp("MD:"+k, SArr(SInt, SArr(ks, SBool)))
	val = j.regComp("MV:"+k, SArr(SInt, SArr(ks, vs)))
	ln = j.regComp("ML:"+k, SArr(SInt, SInt))
	return
}

func (j *Job) mapDom(st *State, m *Term, t *types.Map) *Term {
	d, _, _ := j.mapComps(t)
	return j.c.Select(j.get(st, d, j.compSort[d]), m)
}
func (j *Job) mapVal(st *State, m *Term, t *types.Map) *Term {
	_, v, _ := j.mapComps(t)
	return j.c.Select(j.get(st, v, j.compSort[v]), m)
}

func (j *Job) mapLen(st *State, m *Term, t *types.Map) *Term {
	_, _, l := j.mapComps(t)
	c := j.c
	x := c.Select(j.get(st, l, j.compSort[l]), m)
	if x.n == nil && !x.bound {
		c.SetRange(x, big.NewInt(0), maxLen)
		j.assume(st, c.mk("<=", SBool, c.Int(0), x))
		// empty iff no key
		k := c.BoundVar("k", j.sortOf(t.Key()))
		dom := j.mapDom(st, m, t)
		j.assume(st, c.Imp(c.Eq(x, c.Int(0)), c.Forall([]*Term{k}, c.Not(c.Select(dom, k)))))
		w := c.App("mapwit$"+mapKey(t), j.sortOf(t.Key()), dom)
		j.assume(st, c.Imp(c.Not(c.Eq(x, c.Int(0))), c.Select(dom, w)))
	}
	return x
}

func (j *Job) mapSet(st *State, m *Term, t *types.Map, k, v *Term) {
	c := j.c
	d, vl, l := j.mapComps(t)
	hd, hv, hl := j.get(st, d, j.compSort[d]), j.get(st, vl, j.compSort[vl]), j.get(st, l, j.compSort[l])
	dom := c.Select(hd, m)
	st.heap[l] = c.Store(hl, m, c.Add(c.Select(hl, m), c.Ite(c.Select(dom, k), c.Int(0), c.Int(1))))
	st.heap[d] = c.Store(hd, m, c.Store(dom, k, c.True))
	st.heap[vl] = c.Store(hv, m, c.Store(c.Select(hv, m), k, v))
}

func (j *Job) mapDelete(st *State, m *Term, t *types.Map, k *Term) {
	c := j.c
	d, _, l := j.mapComps(t)
	hd, hl := j.get(st, d, j.compSort[d]), j.get(st, l, j.compSort[l])
	dom := c.Select(hd, m)
	st.heap[l] = c.Store(hl, m, c.Sub(c.Select(hl, m), c.Ite(c.Select(dom, k), c.Int(1), c.Int(0))))
	st.heap[d] = c.Store(hd, m, c.Store(dom, k, c.False))
}

// ---------------------------------------------------------------- function execution

type Exit struct {
	st  *State
	res []Val
	pos token.Pos
}

type frame struct {
	fn    *ssa.Function
	binds []Val
	path  string
	depth int
	exits []Exit
	hdrs  map[*ssa.BasicBlock]*hdrInfo
	top   bool
	args  []Val
	entry *State
}

type hdrInfo struct {
	li    *LoopInfo
	entry *State // state before havoc
	head  *State // state after havoc
	cands []*Cand
	seq   int
}

func rpo(fn *ssa.Function) []*ssa.BasicBlock {
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var rec func(b *ssa.BasicBlock)
	rec = func(b *ssa.BasicBlock) {
		if seen[b] {
			return
		}
		seen[b] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			rec(b.Succs[i])
		}
		post = append(post, b)
	}
	rec(fn.Blocks[0])
	for i, k := 0, len(post)-1; i < k; i, k = i+1, k-1 {
		post[i], post[k] = post[k], post[i]
	}
	return post
}

type edge struct {
	st   *State
	pred *ssa.BasicBlock
}

func (j *Job) execFn(fn *ssa.Function, args []Val, binds []Val, st *State, path string, depth int, top bool) []Exit {
	if len(fn.Blocks) == 0 {
		j.unsup(fn.Pos(), "no body for %s", fn.Name())
	}
	if depth > 14 {
		j.unsup(fn.Pos(), "inlining too deep at %s", fn.Name())
	}
	for _, f := range j.stack {
		if f == fn {
			j.unsup(fn.Pos(), "recursive call of %s without contract", fn.Name())
		}
	}
	j.stack = append(j.stack, fn)
	defer func() { j.stack = j.stack[:len(j.stack)-1] }()
	j.reached[fnKey(fn)] = true

	fr := &frame{fn: fn, binds: binds, path: path, depth: depth, hdrs: map[*ssa.BasicBlock]*hdrInfo{}, top: top, args: args, entry: st.clone()}
	s0 := st.clone()
	s0.env = map[ssa.Value]Val{}
	s0.defers = nil
	for i, p := range fn.Params {
		s0.env[p] = args[i]
	}
	for i, p := range fn.FreeVars {
		s0.env[p] = binds[i]
	}
	in := map[*ssa.BasicBlock][]edge{fn.Blocks[0]: {{s0, nil}}}
	for _, b := range rpo(fn) {
		es := in[b]
		if len(es) == 0 {
			continue
		}
		delete(in, b)
		isHdr := false
		for _, p := range b.Preds {
			if b.Dominates(p) {
				isHdr = true
			}
		}
		var sts []*State
		for _, e := range es {
			s := e.st
			j.phis(s, b, e.pred)
			sts = append(sts, s)
		}
		s := j.merge(sts)
		if s.guard == j.c.False {
			continue
		}
		if isHdr {
			s = j.enterLoop(fr, b, s)
		}
		j.block(fr, b, s, in)
		if len(j.obls) > 20000 {
			j.unsup(fn.Pos(), "too many obligations")
		}
	}
	return fr.exits
}

func (j *Job) phis(s *State, b, pred *ssa.BasicBlock) {
	if pred == nil {
		return
	}
	pi := -1
	for i, p := range b.Preds {
		if p == pred {
			pi = i
		}
	}
	var ks []*ssa.Phi
	var vs []Val
	for _, in := range b.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		ks = append(ks, ph)
		vs = append(vs, j.val(s, ph.Edges[pi]))
	}
	for i, k := range ks {
		s.env[k] = vs[i]
	}
}

func (j *Job) block(fr *frame, b *ssa.BasicBlock, s *State, in map[*ssa.BasicBlock][]edge) {
	c := j.c
	for _, ins := range b.Instrs {
		if s.guard == c.False {
			return
		}
		switch i := ins.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.If:
			cond := j.val(s, i.Cond).t
			j.flow(fr, b, b.Succs[0], j.branch(s, cond), in)
			j.flow(fr, b, b.Succs[1], j.branch(s, c.Not(cond)), in)
			return
		case *ssa.Jump:
			j.flow(fr, b, b.Succs[0], s, in)
			return
		case *ssa.Return:
			var rs []Val
			for _, r := range i.Results {
				rs = append(rs, j.val(s, r))
			}
			fr.exits = append(fr.exits, Exit{s, rs, i.Pos()})
			return
		case *ssa.Panic:
			j.safety(s, c.False, "panic", i.Pos())
			return
		default:
			s = j.instr(fr, ins, s)
		}
	}
}

func (j *Job) flow(fr *frame, from, to *ssa.BasicBlock, s *State, in map[*ssa.BasicBlock][]edge) {
	if s.guard == j.c.False {
		return
	}
	if to.Dominates(from) {
		if h, ok := fr.hdrs[to]; ok {
			s = s.clone()
			j.phis(s, to, from)
			j.backEdge(fr, h, to, s)
			return
		}
	}
	in[to] = append(in[to], edge{s.clone(), from})
}

// safety is a run-time panic condition: an obligation in nopanic jobs, an assumption afterwards.
func (j *Job) safety(st *State, cond *Term, what string, pos token.Pos) {
	if cond == j.c.True {
		return
	}
	if j.nopanic {
		j.oblige(st, cond, "nopanic:"+what, pos, nil)
	}
	j.assume(st, cond)
	if cond == j.c.False {
		st.guard = j.c.False
	}
}

func (j *Job) oblige(st *State, goal *Term, name string, pos token.Pos, cl *Clause) {
	o := &Obl{name: name, guard: st.guard, goal: goal, facts: st.facts, pos: pos}
	if cl != nil {
		o.props = cl.props
		o.src = cl.src
		o.where = cl.where
	}
	j.obls = append(j.obls, o)
}

// ---------------------------------------------------------------- values of ssa operands

func (j *Job) val(st *State, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return Val{t: j.constant(x.Value, x.Type())}
	case *ssa.Global:
		lv := j.globalLV(x)
		// exported error variables of dependencies (io.EOF, collection.ErrEntryNotFound)
		// are set once, at their declaration
		if x.Object() != nil && x.Object().Exported() && !strings.Contains(x.Pkg.Pkg.Path(), "/FaVe") && types.Identical(lv.root, types.Universe.Lookup("error").Type()) {
			j.assume(st, j.c.Not(j.c.Eq(j.rootGet(st, lv).t, j.c.Int(0))))
		}
		return Val{lv: lv}
	case *ssa.Function:
		return Val{fn: &FuncVal{fn: x}}
	case *ssa.Builtin:
		return Val{poison: "builtin"}
	}
	r, ok := st.env[v]
	if !ok {
		j.unsup(v.Pos(), "undefined value %s (%s)", v.Name(), v)
	}
	return r
}

func (j *Job) globalLV(x *ssa.Global) *LV {
	t := x.Type().Underlying().(*types.Pointer).Elem()
	return j.globalObjLV(pname(x.Pkg.Pkg)+"."+x.Name(), t)
}

func (j *Job) globalObjLV(name string, t types.Type) *LV {
	comp := j.regComp("G:"+name, j.sortOf(t))
	return &LV{kind: lvGlobal, comp: comp, root: t}
}

func (j *Job) constant(v constant.Value, t types.Type) *Term {
	c := j.c
	if v == nil {
		return j.zero(t)
	}
	switch v.Kind() {
	case constant.Bool:
		return c.Bool(constant.BoolVal(v))
	case constant.String:
		return c.Str(constant.StringVal(v))
	}
	switch j.sortOf(t) {
	case SInt:
		x := constant.ToInt(v)
		n, _ := new(big.Int).SetString(x.ExactString(), 10)
		return c.BigInt(n)
	case SReal:
		f := constant.ToFloat(v)
		var r *big.Rat
		if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() == types.Float32 {
			x, _ := constant.Float32Val(f)
			r = new(big.Rat).SetFloat64(float64(x))
		} else {
			x, _ := constant.Float64Val(f)
			r = new(big.Rat).SetFloat64(x)
		}
		return c.RealRat(r)
	}
	// constants of type parameter type etc.
	return c.Fresh("const", j.sortOf(t))
}

// escapes tells whether an Alloc must be a heap object with a reference.
func (j *Job) escapes(a *ssa.Alloc) bool {
	if e, ok := j.escMemo[a]; ok {
		return e
	}
	_, isStruct := a.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
	r := j.escVal(a, isStruct, map[ssa.Value]bool{})
	j.escMemo[a] = r
	return r
}

func (j *Job) escVal(v ssa.Value, isStruct bool, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	refs := v.Referrers()
	if refs == nil {
		return true
	}
	for _, r := range *refs {
		switch i := r.(type) {
		case *ssa.DebugRef, *ssa.FieldAddr, *ssa.IndexAddr:
		case *ssa.UnOp:
		case *ssa.Store:
			if i.Val == v {
				return true
			}
		case *ssa.MakeClosure:
			f := i.Fn.(*ssa.Function)
			for k, b := range i.Bindings {
				if b == v && j.escVal(f.FreeVars[k], isStruct, seen) {
					return true
				}
			}
		case *ssa.Call, *ssa.Defer, *ssa.Go:
			if isStruct {
				return true
			}
		default:
			return true
		}
	}
	return false
}
