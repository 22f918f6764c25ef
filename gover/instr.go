package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (j *Job) instr(fr *frame, ins ssa.Instruction, s *State) *State {
	c := j.c
	switch i := ins.(type) {
	case *ssa.Alloc:
		s.env[i] = j.alloc(s, i)
	case *ssa.Store:
		p := j.val(s, i.Addr)
		if p.t != nil {
			j.safety(s, c.Not(c.Eq(p.t, c.Int(0))), "nil dereference", i.Pos())
		}
		j.access(s, i.Addr, true, i.Pos())
		j.store(s, j.ptrLV(p, i.Addr.Type()), j.val(s, i.Val))
	case *ssa.FieldAddr:
		p := j.val(s, i.X)
		pt := i.X.Type().Underlying().(*types.Pointer).Elem()
		if p.lv != nil {
			ft := pt.Underlying().(*types.Struct).Field(i.Field).Type()
			if p.lv.kind == lvStruct && len(p.lv.path) == 0 {
				s.env[i] = Val{lv: j.fieldLV(p.lv.ref, pt, i.Field)}
			} else {
				s.env[i] = Val{lv: p.lv.extend(step{field: i.Field, typ: ft})}
			}
			break
		}
		if p.t == nil {
			j.unsup(i.Pos(), "field of unmerged pointer %s", p.poison)
		}
		j.safety(s, c.Not(c.Eq(p.t, c.Int(0))), "nil dereference", i.Pos())
		s.env[i] = Val{lv: j.fieldLV(p.t, pt, i.Field)}
	case *ssa.Field:
		v := j.val(s, i.X)
		if v.t == nil {
			j.unsup(i.Pos(), "field of non-term struct")
		}
		t := c.Acc(v.t, i.Field)
		j.wfLoad(s, t, i.Type(), true)
		s.env[i] = Val{t: t}
	case *ssa.IndexAddr:
		s.env[i] = Val{lv: j.indexAddr(s, i)}
	case *ssa.Index:
		x := j.val(s, i.X)
		ix := j.val(s, i.Index).t
		switch u := i.X.Type().Underlying().(type) {
		case *types.Array:
			j.safety(s, c.And(c.Le(c.Int(0), ix), c.Lt(ix, c.Int(u.Len()))), "index out of range", i.Pos())
			s.env[i] = Val{t: c.Select(x.t, ix)}
		case *types.Basic:
			s.env[i] = Val{t: j.strByte(s, x.t, ix, i.Pos())}
		default:
			j.unsup(i.Pos(), "index of %s", i.X.Type())
		}
	case *ssa.UnOp:
		s.env[i] = j.unop(s, i)
	case *ssa.BinOp:
		s.env[i] = Val{t: j.binop(s, i.Op, j.val(s, i.X), j.val(s, i.Y), i.X.Type(), i.Y.Type(), i.Pos())}
	case *ssa.Convert:
		s.env[i] = j.convert(s, j.val(s, i.X), i.X.Type(), i.Type(), i.Pos())
	case *ssa.ChangeType:
		s.env[i] = j.changeType(s, j.val(s, i.X), i.X.Type(), i.Type())
	case *ssa.ChangeInterface:
		s.env[i] = j.val(s, i.X)
	case *ssa.MakeInterface:
		s.env[i] = Val{t: j.box(s, j.val(s, i.X), i.X.Type())}
	case *ssa.TypeAssert:
		s.env[i] = j.typeAssert(s, i)
	case *ssa.Extract:
		v := j.val(s, i.Tuple)
		if i.Index >= len(v.tup) {
			j.unsup(i.Pos(), "extract from non tuple")
		}
		s.env[i] = v.tup[i.Index]
	case *ssa.MakeSlice:
		l := j.val(s, i.Len).t
		k := j.val(s, i.Cap).t
		j.safety(s, c.And(c.Le(c.Int(0), l), c.Le(l, k), c.mk("<=", SBool, k, c.BigInt(maxLen))), "makeslice: len out of range", i.Pos())
		s.env[i] = Val{t: j.makeSlice(s, i.Type().Underlying().(*types.Slice).Elem(), l, k)}
	case *ssa.MakeMap:
		s.env[i] = Val{t: j.makeMap(s, i.Type().Underlying().(*types.Map))}
	case *ssa.MakeChan:
		r := j.newRef(s)
		s.env[i] = Val{t: r}
		s.heap[chanComp] = c.Store(j.get(s, chanComp, SArr(SInt, SInt)), r, c.Int(0))
	case *ssa.MakeClosure:
		var bs []Val
		for _, b := range i.Bindings {
			bs = append(bs, j.val(s, b))
		}
		s.env[i] = Val{fn: &FuncVal{fn: i.Fn.(*ssa.Function), binds: bs}}
	case *ssa.MapUpdate:
		m := j.val(s, i.Map).t
		j.access(s, i.Map, true, i.Pos())
		j.safety(s, c.Not(c.Eq(m, c.Int(0))), "assignment to entry in nil map", i.Pos())
		mt := i.Map.Type().Underlying().(*types.Map)
		j.mapSet(s, m, mt, j.term(s, j.val(s, i.Key), mt.Key()), j.term(s, j.val(s, i.Value), mt.Elem()))
	case *ssa.Lookup:
		s.env[i] = j.lookup(s, i)
	case *ssa.Range:
		s.env[i] = j.rangeIter(s, i, fr)
	case *ssa.Next:
		s.env[i] = j.nextIter(s, i)
	case *ssa.Slice:
		s.env[i] = Val{t: j.slice(s, i)}
	case *ssa.Call:
		return j.call(fr, s, i, &i.Call, i.Pos())
	case *ssa.Go:
		// fork-join: the goroutine body is executed at the go statement (stated assumption)
		j.note("go statements are executed at the point of the statement (race freedom and join before use assumed)")
		j.inGo++
		defer func() { j.inGo-- }()
		return j.call(fr, s, nil, &i.Call, i.Pos())
	case *ssa.Defer:
		if j.ignorable(&i.Call) {
			break
		}
		d := deferred{call: &i.Call, pos: i.Pos()}
		if !i.Call.IsInvoke() {
			if _, isB := i.Call.Value.(*ssa.Builtin); !isB {
				d.fn = j.val(s, i.Call.Value)
			}
		} else {
			d.fn = j.val(s, i.Call.Value)
		}
		for _, a := range i.Call.Args {
			d.args = append(d.args, j.val(s, a))
		}
		if len(d.args) == 1 && isLockCall(j.calleeKey(d.call)) {
			d.args[0] = j.lockArg(s, i.Call.Args[0], d.args[0])
		}
		s.defers = append(s.defers, d)
	case *ssa.RunDefers:
		ds := s.defers
		s.defers = nil
		for k := len(ds) - 1; k >= 0; k-- {
			if cd := ds[k].cond; cd != nil {
				// registered on some paths only
				if key := j.calleeKey(ds[k].call); isLockCall(key) && len(ds[k].args) == 1 {
					j.lockCall(s, key, ds[k].args[0], cd, ds[k].pos)
					continue
				}
				a, b := s.clone(), s.clone()
				a.guard, b.guard = c.And(s.guard, cd), c.And(s.guard, c.Not(cd))
				if a.guard != c.False {
					a = j.callArgs(fr, a, nil, ds[k].call, ds[k].fn, ds[k].args, ds[k].pos)
				}
				s = j.merge([]*State{a, b})
				if s == nil || s.guard == c.False {
					return s
				}
				continue
			}
			s = j.callArgs(fr, s, nil, ds[k].call, ds[k].fn, ds[k].args, ds[k].pos)
			if s.guard == c.False {
				return s
			}
		}
	case *ssa.Send:
		// the number of values sent and not yet received
		j.note("channels only count their pending values; blocking and the values are not modelled")
		ch := j.val(s, i.Chan).t
		h := j.get(s, chanComp, SArr(SInt, SInt))
		s.heap[chanComp] = c.Store(h, ch, c.Add(c.Select(h, ch), c.Int(1)))
	case *ssa.Select:
		// nondeterministic choice among the cases
		tp := i.Type().(*types.Tuple)
		v := j.freshVal(s, "select", tp)
		n := len(i.States)
		lo := 0
		if !i.Blocking {
			lo = -1
		}
		j.assume(s, c.And(c.Le(c.Int(int64(lo)), v.tup[0].t), c.Lt(v.tup[0].t, c.Int(int64(n)))))
		s.env[i] = v
	case *ssa.SliceToArrayPointer:
		x := j.val(s, i.X)
		s.env[i] = Val{t: c.Acc(x.t, 0)}
	default:
		j.unsup(ins.Pos(), "instruction %T", ins)
	}
	return s
}

// chanComp: per channel, how many values are pending
const chanComp = "CH:n"

func (j *Job) alloc(s *State, i *ssa.Alloc) Val {
	c := j.c
	t := i.Type().Underlying().(*types.Pointer).Elem()
	if a, ok := t.Underlying().(*types.Array); ok {
		r := j.newRef(s)
		comp := j.regComp(elemComp(a.Elem()), j.elemArr(a.Elem()))
		h := j.get(s, comp, j.compSort[comp])
		_, as := arrParts(h.sort)
		s.heap[comp] = c.Store(h, r, c.ConstArr(as, j.zero(a.Elem())))
		return Val{t: r}
	}
	if j.escapes(i) {
		return Val{t: j.allocObj(s, t)}
	}
	j.cellCtr++
	id := j.cellCtr
	s.cells[id] = Val{t: j.zero(t)}
	j.cellType[id] = t
	return Val{lv: &LV{kind: lvCell, cell: id, root: t}}
}

func (j *Job) allocObj(s *State, t types.Type) *Term {
	r := j.newRef(s)
	if st, ok := t.Underlying().(*types.Struct); ok && !isTypeParam(t) {
		for k := 0; k < st.NumFields(); k++ {
			j.rootSet(s, j.fieldLV(r, t, k), Val{t: j.zero(st.Field(k).Type())})
		}
		return r
	}
	l := &LV{kind: lvRef, comp: j.regComp(cellComp(t), j.fieldSort(t)), ref: r, root: t}
	j.rootSet(s, l, Val{t: j.zero(t)})
	return r
}

func (j *Job) makeSlice(s *State, et types.Type, l, k *Term) *Term {
	c := j.c
	r := j.newRef(s)
	comp := j.regComp(elemComp(et), j.elemArr(et))
	h := j.get(s, comp, j.compSort[comp])
	_, as := arrParts(h.sort)
	s.heap[comp] = c.Store(h, r, c.ConstArr(as, j.zero(et)))
	return c.Mk(SSlc, r, c.Int(0), l, k)
}

func (j *Job) makeMap(s *State, mt *types.Map) *Term {
	c := j.c
	r := j.newRef(s)
	d, v, l := j.mapComps(mt)
	hd, hl := j.get(s, d, j.compSort[d]), j.get(s, l, j.compSort[l])
	_ = v
	_, ds := arrParts(hd.sort)
	s.heap[d] = c.Store(hd, r, c.ConstArr(ds, c.False))
	s.heap[l] = c.Store(hl, r, c.Int(0))
	return r
}

func (j *Job) indexAddr(s *State, i *ssa.IndexAddr) *LV {
	c := j.c
	x := j.val(s, i.X)
	ix := j.val(s, i.Index).t
	switch u := i.X.Type().Underlying().(type) {
	case *types.Slice:
		if x.t == nil {
			j.unsup(i.Pos(), "index of non-term slice")
		}
		j.safety(s, c.And(c.Le(c.Int(0), ix), c.Lt(ix, c.Acc(x.t, 2))), "index out of range", i.Pos())
		return j.elemLV(x.t, u.Elem(), ix)
	case *types.Pointer:
		a := u.Elem().Underlying().(*types.Array)
		j.safety(s, c.And(c.Le(c.Int(0), ix), c.Lt(ix, c.Int(a.Len()))), "index out of range", i.Pos())
		if x.lv != nil {
			if x.lv.kind == lvRef && len(x.lv.path) == 0 {
				return &LV{kind: lvElem, comp: j.regComp(elemComp(a.Elem()), j.elemArr(a.Elem())), ref: x.lv.ref, idx: ix, root: a.Elem()}
			}
			return x.lv.extend(step{idx: ix, typ: a.Elem()})
		}
		return &LV{kind: lvElem, comp: j.regComp(elemComp(a.Elem()), j.elemArr(a.Elem())), ref: x.t, idx: ix, root: a.Elem()}
	}
	j.unsup(i.Pos(), "indexaddr of %s", i.X.Type())
	return nil
}

func (j *Job) unop(s *State, i *ssa.UnOp) Val {
	c := j.c
	x := j.val(s, i.X)
	switch i.Op {
	case token.MUL:
		if x.t != nil {
			j.safety(s, c.Not(c.Eq(x.t, c.Int(0))), "nil dereference", i.Pos())
		}
		j.access(s, i.X, false, i.Pos())
		return j.load(s, j.ptrLV(x, i.X.Type()))
	case token.NOT:
		return Val{t: c.Not(x.t)}
	case token.SUB:
		if x.t.sort == SReal {
			return Val{t: j.fneg(x.t)}
		}
		return Val{t: j.wrap(c.Neg(x.t), i.Type(), true)}
	case token.XOR:
		_, signed, _ := intInfo(i.Type())
		bits, _, _ := intInfo(i.Type())
		if signed {
			return Val{t: c.Sub(c.Int(-1), x.t)}
		}
		m := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(bits)), big.NewInt(1))
		return Val{t: c.Sub(c.BigInt(m), x.t)}
	case token.ARROW:
		h := j.get(s, chanComp, SArr(SInt, SInt))
		if tp, ok := i.Type().(*types.Tuple); ok {
			// a closed channel only reports so once everything sent was received
			v := j.freshVal(s, "recv", tp)
			j.assume(s, c.Imp(c.Not(v.tup[1].t), c.Le(c.Select(h, x.t), c.Int(0))))
			s.heap[chanComp] = c.Store(h, x.t, c.Ite(v.tup[1].t, c.Fresh("pend", SInt), c.Select(h, x.t)))
			return v
		}
		s.heap[chanComp] = c.Store(h, x.t, c.Fresh("pend", SInt))
		return Val{t: j.fresh(s, "recv", i.Type())}
	}
	j.unsup(i.Pos(), "unop %s", i.Op)
	return Val{}
}

func fw(t types.Type) string {
	if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() == types.Float32 {
		return "32"
	}
	return "64"
}

func (j *Job) fneg(x *Term) *Term {
	if strings.HasPrefix(x.op, "real:") {
		r, _ := new(big.Rat).SetString(x.op[5:])
		return j.c.RealRat(r.Neg(r))
	}
	if x.op == "real--" {
		return x.args[0]
	}
	return j.c.mk("real--", SReal, x)
}

func (j *Job) fop(op string, w string, a, b *Term) *Term {
	c := j.c
	// sign identities that hold exactly in IEEE-754 (with -0 = +0)
	na, nb := a.op == "real--", b.op == "real--"
	switch op {
	case "add":
		if na && nb {
			return j.fneg(j.fop("add", w, a.args[0], b.args[0]))
		} else if nb {
			return j.fop("sub", w, a, b.args[0])
		} else if na {
			return j.fop("sub", w, b, a.args[0])
		}
	case "sub":
		if nb {
			return j.fop("add", w, a, b.args[0])
		} else if na {
			return j.fneg(j.fop("add", w, a.args[0], b))
		} else if a == b {
			return c.RealRat(new(big.Rat))
		} else if a.id > b.id && !(isLit(a) && isLit(b)) {
			return j.fneg(j.fop("sub", w, b, a))
		}
	case "mul", "div":
		if na && nb {
			return j.fop(op, w, a.args[0], b.args[0])
		} else if na {
			return j.fneg(j.fop(op, w, a.args[0], b))
		} else if nb {
			return j.fneg(j.fop(op, w, a, b.args[0]))
		}
	}
	if op == "add" || op == "mul" { // commutative in IEEE-754 (no NaN payloads)
		if a.id > b.id {
			a, b = b, a
		}
	}
	if isLit(a) && isLit(b) {
		x, _ := new(big.Rat).SetString(a.op[5:])
		y, _ := new(big.Rat).SetString(b.op[5:])
		fx, _ := x.Float64()
		fy, _ := y.Float64()
		var r float64
		if w == "32" {
			u, v := float32(fx), float32(fy)
			switch op {
			case "add":
				r = float64(u + v)
			case "sub":
				r = float64(u - v)
			case "mul":
				r = float64(u * v)
			case "div":
				if v == 0 {
					goto un
				}
				r = float64(u / v)
			}
		} else {
			switch op {
			case "add":
				r = fx + fy
			case "sub":
				r = fx - fy
			case "mul":
				r = fx * fy
			case "div":
				if fy == 0 {
					goto un
				}
				r = fx / fy
			}
		}
		if rr := new(big.Rat).SetFloat64(r); rr != nil {
			return c.RealRat(rr)
		}
	}
un:
	if op == "add" {
		if isZeroReal(a) {
			return b
		}
		if isZeroReal(b) {
			return a
		}
	}
	if op == "sub" && isZeroReal(b) {
		return a
	}
	if op == "sub" && isZeroReal(a) {
		return j.fneg(b)
	}
	return c.App("f"+op+w, SReal, a, b)
}

// is32: the term denotes a float32 value, so narrowing it is exact.
func (j *Job) is32(t *Term) bool {
	if j.f32[t] {
		return true
	}
	switch t.op {
	case "real--":
		return j.is32(t.args[0])
	case "ite":
		return j.is32(t.args[1]) && j.is32(t.args[2])
	case "fn:fadd32", "fn:fsub32", "fn:fmul32", "fn:fdiv32", "fn:rnd32", "fn:i2f32":
		return true
	}
	return false
}

func isZeroReal(t *Term) bool { return t.op == "real:0" }

func (j *Job) binop(s *State, op token.Token, xv, yv Val, xt, yt types.Type, pos token.Pos) *Term {
	c := j.c
	if op == token.EQL || op == token.NEQ {
		var r *Term
		if xv.fn != nil || yv.fn != nil {
			// comparison with nil
			if xv.fn != nil && yv.t != nil || yv.fn != nil && xv.t != nil {
				r = c.False
			}
		}
		if xv.lv != nil || yv.lv != nil {
			if xv.lv != nil && yv.lv != nil {
				r = c.Bool(xv.lv.same(yv.lv))
			} else {
				o := xv
				if o.lv != nil {
					o = yv
				}
				if o.t != nil && o.t.n != nil && o.t.n.Sign() == 0 {
					r = c.False
				} else if (xv.lv != nil && xv.lv.kind == lvStruct || yv.lv != nil && yv.lv.kind == lvStruct) && xv.poison == "" && yv.poison == "" {
					r = c.Eq(j.term(s, xv, xt), j.term(s, yv, yt))
				} else {
					r = c.Fresh("ptreq", SBool)
				}
			}
		}
		if r == nil {
			a, b := xv.t, yv.t
			if a == nil || b == nil {
				j.unsup(pos, "comparison of unmerged values")
			}
			if a.sort == SSlc { // comparison with nil
				if b.op == "mk:Slc" {
					r = c.Eq(c.Acc(a, 0), c.Int(0))
				} else {
					r = c.Eq(c.Acc(b, 0), c.Int(0))
				}
			} else {
				if a.sort != b.sort {
					// interface vs concrete
					if a.sort == SInt {
						b = j.box(s, yv, yt)
					} else {
						a = j.box(s, xv, xt)
					}
				}
				r = c.Eq(a, b)
			}
		}
		if op == token.NEQ {
			return c.Not(r)
		}
		return r
	}
	a, b := xv.t, yv.t
	if a == nil || b == nil {
		j.unsup(pos, "operator %s on unmerged values", op)
	}
	switch a.sort {
	case SReal:
		w := fw(xt)
		switch op {
		case token.ADD:
			return j.fop("add", w, a, b)
		case token.SUB:
			return j.fop("sub", w, a, b)
		case token.MUL:
			return j.fop("mul", w, a, b)
		case token.QUO:
			return j.fop("div", w, a, b)
		case token.LSS:
			return c.Lt(a, b)
		case token.LEQ:
			return c.Le(a, b)
		case token.GTR:
			return c.Lt(b, a)
		case token.GEQ:
			return c.Le(b, a)
		}
	case SStr:
		switch op {
		case token.ADD:
			return j.strCat(a, b)
		case token.LSS:
			return c.mk("str.<", SBool, a, b)
		case token.LEQ:
			return c.mk("str.<=", SBool, a, b)
		case token.GTR:
			return c.mk("str.<", SBool, b, a)
		case token.GEQ:
			return c.mk("str.<=", SBool, b, a)
		}
	case SInt:
		switch op {
		case token.ADD:
			return j.wrap(c.Add(a, b), xt, true)
		case token.SUB:
			return j.wrap(c.Sub(a, b), xt, true)
		case token.MUL:
			return j.wrap(c.Mul(a, b), xt, false)
		case token.QUO:
			j.safety(s, c.Not(c.Eq(b, c.Int(0))), "division by zero", pos)
			return j.divmod(s, a, b, xt, true)
		case token.REM:
			j.safety(s, c.Not(c.Eq(b, c.Int(0))), "division by zero", pos)
			return j.divmod(s, a, b, xt, false)
		case token.LSS:
			return c.Lt(a, b)
		case token.LEQ:
			return c.Le(a, b)
		case token.GTR:
			return c.Lt(b, a)
		case token.GEQ:
			return c.Le(b, a)
		case token.SHL:
			if b.n != nil && b.n.IsInt64() && b.n.Int64() < 128 {
				return j.wrap(c.Mul(a, c.BigInt(new(big.Int).Lsh(big.NewInt(1), uint(b.n.Int64())))), xt, false)
			}
			r := c.App("shl$"+typeKey(xt.Underlying()), SInt, a, b)
			j.wf(s, r, xt)
			return r
		case token.SHR:
			if b.n != nil && b.n.IsInt64() && b.n.Int64() < 128 {
				return c.EDiv(a, new(big.Int).Lsh(big.NewInt(1), uint(b.n.Int64())))
			}
			r := c.App("shr$"+typeKey(xt.Underlying()), SInt, a, b)
			j.wf(s, r, xt)
			return r
		case token.AND, token.OR, token.XOR, token.AND_NOT:
			return j.bitop(s, op, a, b, xt)
		}
	case SBool:
		switch op {
		case token.AND:
			return c.And(a, b)
		case token.OR:
			return c.Or(a, b)
		}
	}
	j.unsup(pos, "binop %s on %s", op, xt)
	return nil
}

func (j *Job) divmod(s *State, a, b *Term, t types.Type, div bool) *Term {
	c := j.c
	var r *Term
	if div {
		r = c.DivT(a, b)
	} else {
		r = c.ModT(a, b)
	}
	if strings.HasPrefix(r.op, "fn:go_") {
		// variable divisor: characterise for non-negative operands
		q, m := c.App("go_quo", SInt, a, b), c.App("go_rem", SInt, a, b)
		z := c.Int(0)
		j.assume(s, c.Imp(c.And(c.Le(z, a), c.Lt(z, b)), c.And(c.Eq(a, c.Add(c.Mul(q, b), m)), c.Le(z, m), c.Lt(m, b), c.Le(z, q), c.Le(q, a))))
	}
	return r
}

func (j *Job) bitop(s *State, op token.Token, a, b *Term, t types.Type) *Term {
	c := j.c
	if a.n != nil && b.n == nil && op != token.AND_NOT {
		a, b = b, a
	}
	if a.n != nil && b.n != nil {
		r := new(big.Int)
		switch op {
		case token.AND:
			r.And(a.n, b.n)
		case token.OR:
			r.Or(a.n, b.n)
		case token.XOR:
			r.Xor(a.n, b.n)
		case token.AND_NOT:
			r.AndNot(a.n, b.n)
		}
		return c.BigInt(r)
	}
	_, signed, _ := intInfo(t)
	if op == token.AND && b.n != nil && b.n.Sign() >= 0 {
		m := new(big.Int).Add(b.n, big.NewInt(1))
		if new(big.Int).And(m, b.n).Sign() == 0 && !signed {
			return c.EMod(a, m)
		}
	}
	if b.n != nil && b.n.Sign() == 0 {
		switch op {
		case token.AND:
			return b
		default:
			return a
		}
	}
	r := c.App("bit"+op.String()+typeKey(t.Underlying()), SInt, a, b)
	j.wf(s, r, t)
	if !signed {
		switch op {
		case token.AND:
			j.assume(s, c.And(c.Le(r, a), c.Le(r, b)))
		case token.OR:
			j.assume(s, c.And(c.Le(a, r), c.Le(b, r)))
		}
	}
	return r
}

func (j *Job) strCat(a, b *Term) *Term {
	c := j.c
	if a.op == "str:" {
		return b
	}
	if b.op == "str:" {
		return a
	}
	if strings.HasPrefix(a.op, "str:") && strings.HasPrefix(b.op, "str:") {
		return c.Str(a.op[4:] + b.op[4:])
	}
	return c.mk("str.++", SStr, a, b)
}

func (j *Job) strLen(s *State, x *Term) *Term {
	c := j.c
	if strings.HasPrefix(x.op, "str:") {
		return c.Int(int64(len(x.op[4:])))
	}
	r := c.mk("str.len", SInt, x)
	c.SetRange(r, big.NewInt(0), maxLen)
	return r
}

func (j *Job) strByte(s *State, x, i *Term, pos token.Pos) *Term {
	c := j.c
	if s != nil {
		j.safety(s, c.And(c.Le(c.Int(0), i), c.Lt(i, j.strLen(s, x))), "string index out of range", pos)
	}
	r := c.mk("str.to_code", SInt, c.mk("str.at", SStr, x, i))
	return r
}

func (j *Job) convert(s *State, x Val, from, to types.Type, pos token.Pos) Val {
	c := j.c
	fs, ts := j.sortOf(from), j.sortOf(to)
	_, fi, fok := intInfo(from)
	_ = fi
	_, _, tok := intInfo(to)
	switch {
	case fok && tok:
		fb, fsg, _ := intInfo(from)
		tb, tsg, _ := intInfo(to)
		few := fb == tb || fb < tb
		_ = fsg
		_ = tsg
		return Val{t: j.wrap(x.t, to, few)}
	case fok && ts == SReal:
		if x.t.n != nil {
			r := new(big.Rat).SetInt(x.t.n)
			f, _ := r.Float64()
			if fw(to) == "32" {
				f = float64(float32(f))
			}
			return Val{t: c.RealRat(new(big.Rat).SetFloat64(f))}
		}
		return Val{t: c.App("i2f"+fw(to), SReal, x.t)}
	case fs == SReal && tok:
		r := c.App("f2i$"+typeKey(to.Underlying()), SInt, x.t)
		j.wf(s, r, to)
		// truncation of a value in range
		rr, one := c.mk("to_real", SReal, r), c.RealRat(big.NewRat(1, 1))
		zero := c.RealRat(new(big.Rat))
		j.assume(s, c.Imp(c.And(c.Le(zero, x.t), c.Le(x.t, c.RealRat(big.NewRat(1<<30, 1)))),
			c.And(c.Le(zero, rr), c.Le(rr, x.t), c.mk("<", SBool, x.t, c.mk("+", SReal, rr, one)))))
		return Val{t: r}
	case fs == SReal && ts == SReal:
		if fw(from) == fw(to) || fw(to) == "64" {
			if fw(from) == "32" {
				j.f32[x.t] = true
			}
			return x
		}
		if isLit(x.t) {
			r, _ := new(big.Rat).SetString(x.t.op[5:])
			f, _ := r.Float32()
			return Val{t: c.RealRat(new(big.Rat).SetFloat64(float64(f)))}
		}
		if j.is32(x.t) {
			return x
		}
		return Val{t: c.App("rnd32", SReal, x.t)}
	case fs == SStr && ts == SSlc:
		// []byte(s): fresh array
		l := j.strLen(s, x.t)
		et := to.Underlying().(*types.Slice).Elem()
		r := j.newRef(s)
		comp := j.regComp(elemComp(et), j.elemArr(et))
		h := j.get(s, comp, j.compSort[comp])
		s.heap[comp] = c.Store(h, r, c.App("str2bytes", SArr(SInt, SInt), x.t))
		return Val{t: c.Mk(SSlc, r, c.Int(0), l, l)}
	case fs == SSlc && ts == SStr:
		et := from.Underlying().(*types.Slice).Elem()
		comp := j.regComp(elemComp(et), j.elemArr(et))
		h := c.Select(j.get(s, comp, j.compSort[comp]), c.Acc(x.t, 0))
		if h.op == "fn:str2bytes" {
			return Val{t: h.args[0]}
		}
		r := c.App("bytes2str", SStr, h, c.Acc(x.t, 1), c.Acc(x.t, 2))
		return Val{t: r}
	case fs == ts:
		return x
	case fok && ts == SStr:
		return Val{t: c.App("rune2str", SStr, x.t)}
	}
	j.unsup(pos, "conversion %s -> %s", from, to)
	return Val{}
}

func (j *Job) changeType(s *State, x Val, from, to types.Type) Val {
	c := j.c
	fs, ts := j.sortOf(from), j.sortOf(to)
	if fs == ts {
		// pointers between struct types with different names share no heap: unsupported unless identical underlying names
		return x
	}
	if fd, ok := c.dts[fs]; ok {
		if _, ok := c.dts[ts]; ok && x.t != nil {
			var as []*Term
			for i := range fd.fields {
				as = append(as, c.Acc(x.t, i))
			}
			return Val{t: c.Mk(ts, as...)}
		}
	}
	j.unsup(token.NoPos, "changetype %s -> %s", from, to)
	return Val{}
}

// ---------------------------------------------------------------- interfaces

func (j *Job) tagOf(t types.Type) *Term {
	return j.c.Int(int64(j.typeNum(t)))
}

func (j *Job) box(s *State, v Val, t types.Type) *Term {
	c := j.c
	if _, isI := t.Underlying().(*types.Interface); isI && !isTypeParam(t) {
		return v.t
	}
	if v.t == nil && v.fn == nil && (v.lv == nil || !(len(v.lv.path) == 0 && (v.lv.kind == lvStruct || v.lv.kind == lvRef))) {
		// pointer to a local cell passed as interface: opaque
		b := c.Fresh("boxptr", SInt)
		j.assume(s, c.Lt(c.Int(0), b))
		if v.lv != nil {
			j.boxLV[b] = v
		}
		return b
	}
	x := j.term(s, v, t)
	k := sanitize(typeKey(t))
	b := c.App("box$"+k, SInt, x)
	if j.boxed[b] == nil || true {
		j.boxed[b] = t
		j.assume(s, c.And(c.Lt(c.Int(0), b), c.Eq(c.App("tag", SInt, b), j.tagOf(t)), c.Eq(c.App("unbox$"+k, j.sortOf(t), b), x)))
	}
	return b
}

func (j *Job) typeAssert(s *State, i *ssa.TypeAssert) Val {
	c := j.c
	x := j.val(s, i.X)
	at := i.AssertedType
	if x.t == nil {
		j.unsup(i.Pos(), "type assertion on non-term")
	}
	var ok, v *Term
	if _, isI := at.Underlying().(*types.Interface); isI {
		ok = c.And(c.Not(c.Eq(x.t, c.Int(0))), c.App("impl$"+sanitize(typeKey(at)), SBool, c.App("tag", SInt, x.t)))
		v = c.Ite(ok, x.t, c.Int(0))
	} else {
		ok = c.And(c.Not(c.Eq(x.t, c.Int(0))), c.Eq(c.App("tag", SInt, x.t), j.tagOf(at)))
		u := c.App("unbox$"+sanitize(typeKey(at)), j.sortOf(at), x.t)
		if x.t.op == "fn:box$"+sanitize(typeKey(at)) {
			u = x.t.args[0]
			ok = c.True
		}
		j.wfLoad(s, u, at, true)
		// a value of the dynamic type is determined by its content
		j.assume(s, c.Imp(ok, c.Eq(c.App("box$"+sanitize(typeKey(at)), SInt, u), x.t)))
		if i.CommaOk {
			v = c.Ite(ok, u, j.zero(at))
		} else {
			v = u
		}
	}
	if i.CommaOk {
		return Val{tup: []Val{{t: v}, {t: ok}}}
	}
	j.safety(s, ok, "type assertion", i.Pos())
	return Val{t: v}
}

// ---------------------------------------------------------------- maps, ranges, slices

func (j *Job) lookup(s *State, i *ssa.Lookup) Val {
	c := j.c
	x := j.val(s, i.X)
	ix := j.val(s, i.Index)
	mt, ok := i.X.Type().Underlying().(*types.Map)
	if ok {
		j.access(s, i.X, false, i.Pos())
	}
	if !ok {
		return Val{t: j.strByte(s, x.t, ix.t, i.Pos())}
	}
	k := j.term(s, ix, mt.Key())
	in := c.And(c.Not(c.Eq(x.t, c.Int(0))), c.Select(j.mapDom(s, x.t, mt), k))
	raw := c.Select(j.mapVal(s, x.t, mt), k)
	j.wfLoad(s, raw, mt.Elem(), true)
	v := c.Ite(in, raw, j.zero(mt.Elem()))
	if i.CommaOk {
		return Val{tup: []Val{{t: v}, {t: in}}}
	}
	return Val{t: v}
}

func (j *Job) rangeIter(s *State, i *ssa.Range, fr *frame) Val {
	c := j.c
	x := j.val(s, i.X)
	mt, ok := i.X.Type().Underlying().(*types.Map)
	if ok {
		j.access(s, i.X, false, i.Pos())
	}
	if !ok {
		return Val{iter: &Iter{str: x.t}}
	}
	j.iterCtr++
	it := &Iter{id: fmt.Sprintf("iter%d", j.iterCtr), m: x.t, typ: mt}
	ks := j.sortOf(mt.Key())
	dom := j.mapDom(s, x.t, mt)
	it.dom0 = c.Ite(c.Eq(x.t, c.Int(0)), c.ConstArr(dom.sort, c.False), dom)
	s.ghost[it.id] = c.ConstArr(SArr(ks, SBool), c.False)
	s.ghost[it.id+"#n"] = c.Int(0)
	j.iters = append(j.iters, it)
	return Val{iter: it}
}

func (j *Job) nextIter(s *State, i *ssa.Next) Val {
	c := j.c
	x := j.val(s, i.Iter)
	if x.iter == nil || x.iter.str != nil {
		return j.freshVal(s, "next", i.Type())
	}
	it := x.iter
	ok := c.Fresh("nextok", SBool)
	k := j.fresh(s, "nextk", it.typ.Key())
	dom := c.Ite(c.Eq(it.m, c.Int(0)), c.ConstArr(it.dom0.sort, c.False), j.mapDom(s, it.m, it.typ))
	vis := s.ghost[it.id]
	j.assume(s, c.Imp(ok, c.And(c.Select(dom, k), c.Not(c.Select(vis, k)))))
	b := c.BoundVar("k", k.sort)
	j.assume(s, c.Imp(c.Not(ok), c.Forall([]*Term{b}, c.Imp(c.And(c.Select(dom, b), c.Select(it.dom0, b)), c.Select(vis, b)), []*Term{c.Select(dom, b)}, []*Term{c.Select(vis, b)})))
	j.assume(s, c.Imp(c.Not(ok), c.Forall([]*Term{b}, c.Imp(c.And(c.Select(dom, b), c.Select(it.dom0, b)), c.Select(vis, b)))))
	s.ghost[it.id] = c.Ite(ok, c.Store(vis, k, c.True), vis)
	s.ghost[it.id+"#n"] = c.Ite(ok, c.Add(s.ghost[it.id+"#n"], c.Int(1)), s.ghost[it.id+"#n"])
	val := c.Select(j.mapVal(s, it.m, it.typ), k)
	j.wfLoad(s, val, it.typ.Elem(), true)
	return Val{tup: []Val{{t: ok}, {t: k}, {t: val}}}
}

func (j *Job) slice(s *State, i *ssa.Slice) *Term {
	c := j.c
	x := j.val(s, i.X)
	var lo, hi, max *Term
	if i.Low != nil {
		lo = j.val(s, i.Low).t
	} else {
		lo = c.Int(0)
	}
	if i.High != nil {
		hi = j.val(s, i.High).t
	}
	if i.Max != nil {
		max = j.val(s, i.Max).t
	}
	switch u := i.X.Type().Underlying().(type) {
	case *types.Basic:
		l := j.strLen(s, x.t)
		if hi == nil {
			hi = l
		}
		j.safety(s, c.And(c.Le(c.Int(0), lo), c.Le(lo, hi), c.Le(hi, l)), "slice bounds out of range", i.Pos())
		return c.mk("str.substr", SStr, x.t, lo, c.Sub(hi, lo))
	case *types.Slice:
		a, o, l, k := c.Acc(x.t, 0), c.Acc(x.t, 1), c.Acc(x.t, 2), c.Acc(x.t, 3)
		if hi == nil {
			hi = l
		}
		if max == nil {
			max = k
		}
		j.safety(s, c.And(c.Le(c.Int(0), lo), c.Le(lo, hi), c.Le(hi, max), c.Le(max, k)), "slice bounds out of range", i.Pos())
		return c.Mk(SSlc, a, c.Add(o, lo), c.Sub(hi, lo), c.Sub(max, lo))
	case *types.Pointer:
		n := c.Int(u.Elem().Underlying().(*types.Array).Len())
		if hi == nil {
			hi = n
		}
		if max == nil {
			max = n
		}
		ref := x.t
		if ref == nil {
			if x.lv != nil && x.lv.kind == lvRef && len(x.lv.path) == 0 {
				ref = x.lv.ref
			} else if x.lv != nil {
				// slicing an array held in a cell/struct: copy semantics would lose aliasing
				j.unsup(i.Pos(), "slice of an embedded array")
			}
		}
		j.safety(s, c.And(c.Le(c.Int(0), lo), c.Le(lo, hi), c.Le(hi, max), c.Le(max, n)), "slice bounds out of range", i.Pos())
		return c.Mk(SSlc, ref, lo, c.Sub(hi, lo), c.Sub(max, lo))
	}
	j.unsup(i.Pos(), "slice of %s", i.X.Type())
	return nil
}
