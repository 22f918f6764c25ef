package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"strings"
)

type SVal struct {
	v   Val
	typ types.Type // nil: mathematical
}

type SpecEnv struct {
	j    *Job
	st   *State
	old  *State
	vars map[string]SVal
	pkg  *types.Package
	deep int
	mod  bool // evaluating a modifies item
}

func (e *SpecEnv) fail(x *Expr, f string, a ...any) {
	panic(unsupported{"contract: " + fmt.Sprintf(f, a...) + " in " + exprString(x)})
}

func exprString(x *Expr) string {
	if x == nil {
		return ""
	}
	var as []string
	for _, a := range x.args {
		as = append(as, exprString(a))
	}
	switch x.op {
	case "id", "int", "real":
		return x.s
	case "str":
		return "\"" + x.s + "\""
	case "sel":
		return as[0] + "." + x.s
	case "idx":
		return as[0] + "[" + as[1] + "]"
	case "call":
		return as[0] + "(" + strings.Join(as[1:], ", ") + ")"
	case "bin":
		return "(" + as[0] + " " + x.s + " " + as[1] + ")"
	case "un":
		return x.s + as[0]
	case "forall", "exists":
		var vs []string
		for _, v := range x.vars {
			vs = append(vs, v.name)
		}
		return x.op + " " + strings.Join(vs, ",") + " :: " + as[0]
	}
	return x.op + "(" + strings.Join(as, ",") + ")"
}

func (e *SpecEnv) boolean(cl *Clause) *Term {
	v := e.eval(cl.e)
	if v.v.t == nil || v.v.t.sort != SBool {
		e.fail(cl.e, "not a boolean")
	}
	return v.v.t
}

func (e *SpecEnv) with(name string, v SVal) *SpecEnv {
	n := *e
	n.vars = make(map[string]SVal, len(e.vars)+1)
	for k, x := range e.vars {
		n.vars[k] = x
	}
	n.vars[name] = v
	return &n
}

func (e *SpecEnv) t(x *Expr) *Term {
	v := e.eval(x)
	if v.v.t == nil {
		if v.v.lv != nil || v.v.fn != nil {
			return e.j.term(e.st, v.v, v.typ)
		}
		e.fail(x, "no term (%s)", v.v.poison)
	}
	return v.v.t
}

func (e *SpecEnv) resolveType(s string) types.Type {
	if t, ok := e.j.p.typeMemo[e.pkgPath()+"|"+s]; ok {
		return t
	}
	var t types.Type
	if tv, err := types.Eval(e.j.p.fset, e.pkg, token.NoPos, s); err == nil && tv.IsType() {
		t = tv.Type
	} else if strings.HasPrefix(s, "*") {
		if b := e.resolveType(s[1:]); b != nil {
			t = types.NewPointer(b)
		}
	} else if strings.HasPrefix(s, "[]") {
		if b := e.resolveType(s[2:]); b != nil {
			t = types.NewSlice(b)
		}
	} else if k := strings.Index(s, "."); k > 0 {
		if pk := e.j.p.pkgByName(s[:k]); pk != nil {
			if o := pk.Scope().Lookup(s[k+1:]); o != nil {
				if tn, ok := o.(*types.TypeName); ok {
					t = tn.Type()
				}
			}
		}
	}
	return t
}

func (e *SpecEnv) pkgPath() string {
	if e.pkg == nil {
		return ""
	}
	return e.pkg.Path()
}

func mathv(t *Term) SVal { return SVal{v: Val{t: t}} }

func (e *SpecEnv) eval(x *Expr) SVal {
	c := e.j.c
	j := e.j
	switch x.op {
	case "int":
		n, _ := new(big.Int).SetString(x.s, 10)
		return mathv(c.BigInt(n))
	case "real":
		r, _ := new(big.Rat).SetString(x.s)
		return mathv(c.RealRat(r))
	case "str":
		return mathv(c.Str(x.s))
	case "id":
		return e.ident(x)
	case "sel":
		return e.sel(x)
	case "idx":
		b := e.eval(x.args[0])
		if b.typ != nil {
			switch u := b.typ.Underlying().(type) {
			case *types.Slice:
				i := e.t(x.args[1])
				lv := j.elemLV(e.tv(x, b), u.Elem(), i)
				return SVal{v: j.loadSpec(e.st, lv), typ: u.Elem()}
			case *types.Map:
				k := e.t(x.args[1])
				k = e.coerce(k, j.sortOf(u.Key()))
				t := c.Select(j.mapVal(e.st, e.tv(x, b), u), k)
				if t.sort == SSlc {
					c.zeroOff[t] = true
				}
				if !t.bound {
					j.wfLoad(e.st, t, u.Elem(), true)
				}
				return SVal{v: Val{t: t}, typ: u.Elem()}
			case *types.Pointer: // pointer to array
				if a, ok := u.Elem().Underlying().(*types.Array); ok {
					lv := j.ptrLV(b.v, b.typ)
					arr := j.rootGet(e.st, lv)
					return SVal{v: Val{t: c.Select(arr.t, e.t(x.args[1]))}, typ: a.Elem()}
				}
			case *types.Array:
				return SVal{v: Val{t: c.Select(b.v.t, e.t(x.args[1]))}, typ: u.Elem()}
			}
		}
		bt := e.tv(x, b)
		if strings.HasPrefix(bt.sort, "(Array") {
			k, _ := arrParts(bt.sort)
			return mathv(c.Select(bt, e.coerce(e.t(x.args[1]), k)))
		}
		e.fail(x, "cannot index")
	case "slice":
		b := e.eval(x.args[0])
		s := e.tv(x, b)
		lo := c.Int(0)
		if x.args[1] != nil {
			lo = e.t(x.args[1])
		}
		hi := c.Acc(s, 2)
		if x.args[2] != nil {
			hi = e.t(x.args[2])
		}
		return SVal{v: Val{t: c.Mk(SSlc, c.Acc(s, 0), c.Add(c.Acc(s, 1), lo), c.Sub(hi, lo), c.Sub(c.Acc(s, 3), lo))}, typ: b.typ}
	case "ite":
		a, b := e.eval(x.args[1]), e.eval(x.args[2])
		at, bt := e.unify(e.tv(x, a), e.tv(x, b))
		ty := a.typ
		if ty == nil {
			ty = b.typ
		}
		return SVal{v: Val{t: c.Ite(e.t(x.args[0]), at, bt)}, typ: ty}
	case "un":
		switch x.s {
		case "!":
			return mathv(c.Not(e.t(x.args[0])))
		case "-":
			v := e.eval(x.args[0])
			if v.v.t.sort == SReal {
				return SVal{v: Val{t: j.fneg(v.v.t)}, typ: v.typ}
			}
			return mathv(c.Neg(v.v.t))
		case "*":
			v := e.eval(x.args[0])
			lv := j.ptrLV(v.v, v.typ)
			return SVal{v: j.loadSpec(e.st, lv), typ: v.typ.Underlying().(*types.Pointer).Elem()}
		}
	case "bin":
		return e.bin(x)
	case "forall", "exists":
		env := e
		var vs []*Term
		for _, bv := range x.vars {
			var ty types.Type
			srt := SInt
			if bv.of != nil {
				s := e.eval(bv.of)
				switch u := s.typ.Underlying().(type) {
				case *types.Slice:
					ty = u.Elem()
				case *types.Map:
					ty = u.Key()
				}
				srt = j.sortOf(ty)
			} else if strings.HasPrefix(bv.typ, "$") {
				srt = bv.typ[1:]
			} else if bv.typ != "" && bv.typ != "int" {
				ty = e.resolveType(bv.typ)
				if ty == nil {
					e.fail(x, "unknown type %s", bv.typ)
				}
				srt = j.sortOf(ty)
			}
			b := c.BoundVar(bv.name, srt)
			vs = append(vs, b)
			env = env.with(bv.name, SVal{v: Val{t: b}, typ: ty})
		}
		body := env.t(x.args[0])
		var pats [][]*Term
		for _, p := range x.pats {
			var pt []*Term
			for _, q := range p {
				pt = append(pt, env.t(q))
			}
			pats = append(pats, pt)
		}
		if x.op == "forall" {
			return mathv(c.Forall(vs, body, pats...))
		}
		return mathv(c.Exists(vs, body, pats...))
	case "call":
		return e.call(x)
	}
	e.fail(x, "cannot evaluate %s", x.op)
	return SVal{}
}

func (e *SpecEnv) tv(x *Expr, v SVal) *Term {
	if v.v.t != nil {
		return v.v.t
	}
	if v.v.lv != nil || v.v.fn != nil {
		return e.j.term(e.st, v.v, v.typ)
	}
	e.fail(x, "no term")
	return nil
}

func (e *SpecEnv) coerce(t *Term, srt string) *Term {
	if t.sort == srt {
		return t
	}
	if t.sort == SInt && srt == SReal && t.n != nil {
		return e.j.c.RealRat(new(big.Rat).SetInt(t.n))
	}
	return t
}

func (e *SpecEnv) unify(a, b *Term) (*Term, *Term) {
	return e.coerce(a, b.sort), e.coerce(b, a.sort)
}

func (j *Job) loadSpec(st *State, l *LV) Val { return j.load(st, l) }

func (e *SpecEnv) ident(x *Expr) SVal {
	c := e.j.c
	if v, ok := e.vars[x.s]; ok {
		return v
	}
	switch x.s {
	case "true":
		return mathv(c.True)
	case "false":
		return mathv(c.False)
	case "nil":
		return mathv(c.Int(0))
	case "MaxInt64":
		return mathv(c.BigInt(new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 63), big.NewInt(1))))
	case "MaxUint64":
		return mathv(c.BigInt(new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 64), big.NewInt(1))))
	}
	if g, ok := e.j.p.specs.ghosts[x.s]; ok {
		return mathv(e.j.ghostGet(e.st, g))
	}
	if m, ok := e.j.p.specs.macros[x.s]; ok && len(m.params) == 0 {
		return e.eval(m.body)
	}
	if e.pkg != nil {
		if o := e.pkg.Scope().Lookup(x.s); o != nil {
			if v, ok := e.object(o); ok {
				return v
			}
		}
	}
	e.fail(x, "unknown identifier %s", x.s)
	return SVal{}
}

func (e *SpecEnv) object(o types.Object) (SVal, bool) {
	switch o := o.(type) {
	case *types.Const:
		t := o.Type()
		if b, ok := t.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
			if o.Val().Kind() == constant.String {
				t = types.Typ[types.String]
			} else if o.Val().Kind() == constant.Float {
				t = types.Typ[types.Float64]
			} else if o.Val().Kind() == constant.Int {
				t = types.Typ[types.Int]
			} else {
				t = types.Typ[types.Bool]
			}
		}
		return SVal{v: Val{t: e.j.constant(o.Val(), t)}, typ: t}, true
	case *types.Var:
		lv := e.j.globalObjLV(pname(o.Pkg())+"."+o.Name(), o.Type())
		return SVal{v: e.j.loadSpec(e.st, lv), typ: o.Type()}, true
	}
	return SVal{}, false
}

func (j *Job) ghostGet(st *State, g *GhostVar) *Term {
	if t, ok := st.ghost[g.name]; ok {
		return t
	}
	return j.c.Const("ghost_"+g.name+"@0", g.srt)
}

func (j *Job) ghostInit(name string) *Term {
	if g, ok := j.p.specs.ghosts[name]; ok {
		return j.c.Const("ghost_"+g.name+"@0", g.srt)
	}
	return nil
}

func (e *SpecEnv) sel(x *Expr) SVal {
	j := e.j
	// package qualified
	if b := x.args[0]; b.op == "id" {
		if _, isVar := e.vars[b.s]; !isVar {
			if _, isG := j.p.specs.ghosts[b.s]; !isG {
				if p := j.p.pkgByName(b.s); p != nil && (e.pkg == nil || e.pkg.Scope().Lookup(b.s) == nil) {
					if o := p.Scope().Lookup(x.s); o != nil {
						if v, ok := e.object(o); ok {
							return v
						}
					}
				}
			}
		}
	}
	b := e.eval(x.args[0])
	if b.typ == nil {
		e.fail(x, "selector on untyped value")
	}
	return e.field(x, b, x.s)
}

func (e *SpecEnv) field(x *Expr, b SVal, name string) SVal {
	j := e.j
	c := j.c
	t := b.typ
	pt, isPtr := t.Underlying().(*types.Pointer)
	st := t
	if isPtr {
		st = pt.Elem()
	}
	u, ok := st.Underlying().(*types.Struct)
	if !ok {
		e.fail(x, "selector %s on %s", name, t)
	}
	idx := -1
	for i := 0; i < u.NumFields(); i++ {
		if u.Field(i).Name() == name {
			idx = i
		}
	}
	if idx < 0 {
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Embedded() {
				ft := u.Field(i).Type()
				if hasField(ft, name) {
					return e.field(x, e.field(x, b, u.Field(i).Name()), name)
				}
			}
		}
		e.fail(x, "no field %s in %s", name, st)
	}
	ft := u.Field(idx).Type()
	if isPtr {
		var lv *LV
		if b.v.lv != nil {
			if b.v.lv.kind == lvStruct && len(b.v.lv.path) == 0 {
				lv = j.fieldLV(b.v.lv.ref, st, idx)
			} else {
				lv = b.v.lv.extend(step{field: idx, typ: ft})
			}
		} else {
			lv = j.fieldLV(e.tv(x, b), st, idx)
		}
		return SVal{v: j.loadSpec(e.st, lv), typ: ft}
	}
	tm := c.Acc(e.tv(x, b), idx)
	if tm.sort == SSlc && tm.op != "mk:Slc" && tm.op != "ite" {
		c.zeroOff[tm] = true
	}
	return SVal{v: Val{t: tm}, typ: ft}
}

func hasField(t types.Type, name string) bool {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	u, ok := t.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < u.NumFields(); i++ {
		if u.Field(i).Name() == name {
			return true
		}
		if u.Field(i).Embedded() && hasField(u.Field(i).Type(), name) {
			return true
		}
	}
	return false
}

func (e *SpecEnv) bin(x *Expr) SVal {
	c := e.j.c
	j := e.j
	switch x.s {
	case "&&":
		a := e.t(x.args[0])
		if a == c.False {
			return mathv(c.False)
		}
		return mathv(c.And(a, e.t(x.args[1])))
	case "||":
		a := e.t(x.args[0])
		if a == c.True {
			return mathv(c.True)
		}
		return mathv(c.Or(a, e.t(x.args[1])))
	case "==>":
		a := e.t(x.args[0])
		if a == c.False {
			return mathv(c.True)
		}
		return mathv(c.Imp(a, e.t(x.args[1])))
	case "<==>":
		return mathv(c.Eq(e.t(x.args[0]), e.t(x.args[1])))
	case "in":
		m := e.eval(x.args[1])
		k := e.t(x.args[0])
		if m.typ != nil {
			if mt, ok := m.typ.Underlying().(*types.Map); ok {
				mm := e.tv(x, m)
				k = e.coerce(k, j.sortOf(mt.Key()))
				return mathv(c.And(c.Not(c.Eq(mm, c.Int(0))), c.Select(j.mapDom(e.st, mm, mt), k)))
			}
		}
		return mathv(c.Select(e.tv(x, m), k))
	}
	av, bv := e.eval(x.args[0]), e.eval(x.args[1])
	if x.s == "==" || x.s == "!=" {
		var r *Term
		isNil := func(y *Expr) bool { return y.op == "id" && y.s == "nil" }
		switch {
		case isNil(x.args[1]) && av.v.t != nil && av.v.t.sort == SSlc:
			r = c.Eq(c.Acc(av.v.t, 0), c.Int(0))
		case isNil(x.args[1]) && (av.v.lv != nil || av.v.fn != nil) && av.v.t == nil:
			r = c.False
		default:
			a, b := e.unify(e.tv(x.args[0], av), e.tv(x.args[1], bv))
			if a.sort != b.sort {
				e.fail(x, "sorts %s and %s", a.sort, b.sort)
			}
			r = c.Eq(a, b)
		}
		if x.s == "!=" {
			r = c.Not(r)
		}
		return mathv(r)
	}
	a, b := e.unify(e.tv(x.args[0], av), e.tv(x.args[1], bv))
	if a.sort != b.sort {
		e.fail(x, "sorts %s and %s", a.sort, b.sort)
	}
	switch x.s {
	case "<":
		return mathv(c.Lt(a, b))
	case "<=":
		return mathv(c.Le(a, b))
	case ">":
		return mathv(c.Lt(b, a))
	case ">=":
		return mathv(c.Le(b, a))
	}
	if a.sort == SReal {
		ty := av.typ
		if ty == nil {
			ty = bv.typ
		}
		w := "64"
		if ty != nil {
			w = fw(ty)
		} else {
			w = "32"
		}
		op := map[string]string{"+": "add", "-": "sub", "*": "mul", "/": "div"}[x.s]
		return SVal{v: Val{t: j.fop(op, w, a, b)}, typ: ty}
	}
	if a.sort == SStr && x.s == "+" {
		return SVal{v: Val{t: j.strCat(a, b)}, typ: av.typ}
	}
	switch x.s {
	case "+":
		return mathv(c.Add(a, b))
	case "-":
		return mathv(c.Sub(a, b))
	case "*":
		return mathv(c.Mul(a, b))
	case "/":
		return mathv(c.DivT(a, b))
	case "%":
		return mathv(c.ModT(a, b))
	}
	e.fail(x, "operator %s", x.s)
	return SVal{}
}

func (e *SpecEnv) call(x *Expr) SVal {
	c := e.j.c
	j := e.j
	f := x.args[0]
	as := x.args[1:]
	if f.op == "id" {
		if _, shadow := e.vars[f.s]; !shadow {
			switch f.s {
			case "old":
				n := *e
				n.st = e.old
				if j.sink == nil {
					j.sink = e.st
					defer func() { j.sink = nil }()
				}
				return n.eval(as[0])
			case "len":
				v := e.eval(as[0])
				if v.typ != nil {
					switch u := v.typ.Underlying().(type) {
					case *types.Map:
						m := e.tv(x, v)
						return mathv(c.Ite(c.Eq(m, c.Int(0)), c.Int(0), j.mapLen(e.st, m, u)))
					case *types.Array:
						return mathv(c.Int(u.Len()))
					}
				}
				t := e.tv(x, v)
				if t.sort == SStr {
					return mathv(j.strLen(e.st, t))
				}
				return mathv(c.Acc(t, 2))
			case "cap":
				return mathv(c.Acc(e.t(as[0]), 3))
			case "arr":
				return mathv(c.Acc(e.t(as[0]), 0))
			case "off":
				return mathv(c.Acc(e.t(as[0]), 1))
			case "content":
				v := e.eval(as[0])
				et := v.typ.Underlying().(*types.Slice).Elem()
				comp := j.regComp(elemComp(et), j.elemArr(et))
				return mathv(c.Select(j.get(e.st, comp, j.compSort[comp]), c.Acc(e.tv(x, v), 0)))
			case "seq": // an integer code of the elements of a slice
				v := e.eval(as[0])
				et := v.typ.Underlying().(*types.Slice).Elem()
				comp := j.regComp(elemComp(et), j.elemArr(et))
				sl := e.tv(x, v)
				ct := c.Select(j.get(e.st, comp, j.compSort[comp]), c.Acc(sl, 0))
				return mathv(c.App("seqval$"+sanitize(ct.sort), SInt, ct, c.Acc(sl, 1), c.Acc(sl, 2)))
			case "dom":
				v := e.eval(as[0])
				return mathv(j.mapDom(e.st, e.tv(x, v), v.typ.Underlying().(*types.Map)))
			case "vals":
				v := e.eval(as[0])
				return mathv(j.mapVal(e.st, e.tv(x, v), v.typ.Underlying().(*types.Map)))
			case "fresh":
				v := e.eval(as[0])
				t := e.tv(x, v)
				if t.sort == SSlc {
					t = c.Acc(t, 0)
				}
				return mathv(c.And(c.Le(e.old.alloc, t), c.Lt(t, e.st.alloc)))
			case "locked": // locked(x.f), locked(x.f, i): how this goroutine holds a lock
				if as[0].op != "sel" {
					e.fail(x, "locked(x.f)")
				}
				b := e.eval(as[0].args[0])
				lv := j.lockField(e.tv(x, b), b.typ, as[0].s)
				if lv == nil {
					e.fail(x, "no such lock")
				}
				if len(as) == 2 {
					sl := e.tv(x, e.eval(as[0]))
					el := lv.root.Underlying().(*types.Slice).Elem()
					return mathv(j.lockLevel(e.st, "L:"+elemComp(el), c.Acc(sl, 0), c.Add(c.Acc(sl, 1), e.t(as[1]))))
				}
				return mathv(j.fieldLockLevel(e.st, e.tv(x, b), b.typ, as[0].s))
			case "pending":
				return mathv(c.Select(j.get(e.st, chanComp, SArr(SInt, SInt)), e.tv(x, e.eval(as[0]))))
			case "allocated":
				v := e.eval(as[0])
				t := e.tv(x, v)
				if t.sort == SSlc {
					t = c.Acc(t, 0)
				}
				return mathv(c.Lt(t, e.st.alloc))
			case "min", "max":
				a, b := e.unify(e.t(as[0]), e.t(as[1]))
				if f.s == "min" {
					return mathv(c.Ite(c.Lt(a, b), a, b))
				}
				return mathv(c.Ite(c.Lt(a, b), b, a))
			case "abs":
				v := e.eval(as[0])
				z := c.Int(0)
				if v.v.t.sort == SReal {
					return SVal{v: Val{t: c.Ite(c.Lt(v.v.t, c.RealRat(new(big.Rat))), j.fneg(v.v.t), v.v.t)}, typ: v.typ}
				}
				return mathv(c.Ite(c.Lt(v.v.t, z), c.Neg(v.v.t), v.v.t))
			case "store":
				return mathv(c.Store(e.t(as[0]), e.t(as[1]), e.t(as[2])))
			case "select":
				return mathv(c.Select(e.t(as[0]), e.t(as[1])))
			case "emptyset":
				return mathv(c.ConstArr(as[0].s, c.False))
			case "float32":
				v := e.eval(as[0])
				if v.v.t.sort == SReal {
					if v.typ != nil && fw(v.typ) == "32" {
						return v
					}
					return SVal{v: j.convert(e.st, v.v, types.Typ[types.Float64], types.Typ[types.Float32], token.NoPos), typ: types.Typ[types.Float32]}
				}
				return SVal{v: j.convert(e.st, v.v, types.Typ[types.Int], types.Typ[types.Float32], token.NoPos), typ: types.Typ[types.Float32]}
			case "float64":
				v := e.eval(as[0])
				if v.v.t.sort == SReal {
					return SVal{v: v.v, typ: types.Typ[types.Float64]}
				}
				return SVal{v: j.convert(e.st, v.v, types.Typ[types.Int], types.Typ[types.Float64], token.NoPos), typ: types.Typ[types.Float64]}
			case "toint": // conversion of a float to int
				v := e.eval(as[0])
				return SVal{v: j.convert(e.st, v.v, types.Typ[types.Float64], types.Typ[types.Int64], token.NoPos), typ: types.Typ[types.Int64]}
			case "isType":
				t := e.resolveType(as[1].s)
				if t == nil {
					e.fail(x, "type %s", as[1].s)
				}
				v := e.t(as[0])
				return mathv(c.And(c.Not(c.Eq(v, c.Int(0))), c.Eq(c.App("tag", SInt, v), j.tagOf(t))))
			case "unbox":
				t := e.resolveType(as[1].s)
				if t == nil {
					e.fail(x, "type %s", as[1].s)
				}
				v := e.t(as[0])
				u := c.App("unbox$"+sanitize(typeKey(t)), j.sortOf(t), v)
				if e.mod && u.sort == SInt {
					// nothing is written through a value of another type
					u = c.Ite(c.And(c.Not(c.Eq(v, c.Int(0))), c.Eq(c.App("tag", SInt, v), j.tagOf(t))), u, c.Int(-1))
				}
				return SVal{v: Val{t: u}, typ: t}
			case "typed":
				t := e.resolveType(as[1].s)
				if t == nil {
					e.fail(x, "type %s", as[1].s)
				}
				v := e.eval(as[0])
				return SVal{v: v.v, typ: t}
			case "visited":
				it := e.curIter(x)
				return mathv(c.Select(e.st.ghost[it.id], e.t(as[0])))
			case "visitedin": // visitedin(m, k): the key was already produced by the iteration over map m
				m := e.t(as[0])
				for k := len(j.iters) - 1; k >= 0; k-- {
					it := j.iters[k]
					if it.m == m {
						if v, ok := e.st.ghost[it.id]; ok {
							return mathv(c.Select(v, e.t(as[1])))
						}
					}
				}
				e.fail(x, "no iteration over this map")
			case "prefixof":
				return mathv(c.mk("str.prefixof", SBool, e.t(as[0]), e.t(as[1])))
			case "cnt":
				// cnt(s, n, x): occurrences of x among s[0..n)
				v := e.eval(as[0])
				s := e.tv(x, v)
				et := v.typ.Underlying().(*types.Slice).Elem()
				comp := j.regComp(elemComp(et), j.elemArr(et))
				ct := c.Select(j.get(e.st, comp, j.compSort[comp]), c.Acc(s, 0))
				n := e.t(as[1])
				return mathv(j.cntTerm(ct, c.Acc(s, 1), n, e.t(as[2])))
			}
			if fo, ok := j.p.specs.folds[f.s]; ok {
				return e.fold(x, fo, as)
			}
			if m, ok := j.p.specs.macros[f.s]; ok {
				if len(m.params) != len(as) {
					e.fail(x, "macro %s wants %d arguments", m.name, len(m.params))
				}
				if e.deep > 40 {
					e.fail(x, "macro recursion")
				}
				vars := map[string]SVal{}
				// macros see only their parameters (and globals)
				for i, p := range m.params {
					vars[p] = e.eval(as[i])
				}
				n := &SpecEnv{j: j, st: e.st, old: e.old, vars: vars, pkg: e.pkg, deep: e.deep + 1}
				if mp := j.p.pkgByName(m.pkg); mp != nil {
					n.pkg = mp
				}
				if m.opaque && j.specPkg() != m.pkg {
					var ts []*Term
					for _, r := range m.reads {
						ts = append(ts, n.t(r))
					}
					if !m.encaps {
						body := n.t(m.body)
						sub := map[*Term]*Term{}
						for i, t := range ts {
							sub[t] = c.Const(fmt.Sprintf("footprint_%s_%d_%s", m.name, i, t.sort), t.sort)
						}
						hs := map[*Term]string{}
						for k, srt := range j.compSort {
							hs[j.get(e.st, k, srt)] = k
						}
						c.walk(c.Subst(body, sub), func(t *Term) {
							if k, bad := hs[t]; bad {
								e.fail(x, "footprint of %s does not cover %s", m.name, k)
							}
						})
					}
					nm := "op$" + m.name
					for _, t := range ts {
						nm += "$" + sanitize(t.sort)
					}
					return mathv(c.App(nm, SBool, ts...))
				}
				return n.eval(m.body)
			}
			if u, ok := j.p.specs.uninterp[f.s]; ok {
				var ts []*Term
				for i, a := range as {
					t := e.t(a)
					if i < len(u.args) {
						t = e.coerce(t, u.args[i])
						if t.sort != u.args[i] {
							e.fail(x, "argument %d of %s has sort %s, want %s", i, u.name, t.sort, u.args[i])
						}
					}
					ts = append(ts, t)
				}
				for _, a := range u.args {
					j.declSortName(a)
				}
				r := c.App("u$"+u.name, u.ret, ts...)
				return mathv(r)
			}
			if strings.HasPrefix(f.s, "m_") {
				v := e.eval(as[0])
				return SVal{v: Val{t: c.App(f.s, SReal, v.v.t)}, typ: types.Typ[types.Float64]}
			}
		}
	}
	if f.op == "sel" {
		// pure function field
		b := e.eval(f.args[0])
		if b.typ != nil {
			n := namedOf(b.typ)
			if n != nil && n.Obj().Pkg() != nil {
				key := pname(n.Obj().Pkg()) + "." + n.Obj().Name() + "." + f.s
				if j.p.specs.pureFn[key] {
					fv := e.field(f, b, f.s)
					sig := fv.typ.Underlying().(*types.Signature)
					ts := []*Term{e.tv(f, fv)}
					for _, a := range as {
						ts = append(ts, e.t(a))
					}
					j.appSigs["app$"+key] = sig
					rt := sig.Results().At(0).Type()
					return SVal{v: Val{t: c.App("app$"+key, j.sortOf(rt), ts...)}, typ: rt}
				}
			}
		}
	}
	e.fail(x, "unknown function %s", exprString(f))
	return SVal{}
}

func (j *Job) declSortName(s string) {
	if s == SInt || s == SBool || s == SReal || s == SStr || s == SSlc || strings.HasPrefix(s, "(") {
		return
	}
	if _, ok := j.c.dts[s]; ok {
		return
	}
	j.c.DeclSort(s)
}

func (e *SpecEnv) curIter(x *Expr) *Iter {
	for k := len(e.j.iters) - 1; k >= 0; k-- {
		if _, ok := e.st.ghost[e.j.iters[k].id]; ok {
			return e.j.iters[k]
		}
	}
	e.fail(x, "no iteration in scope")
	return nil
}

func (e *SpecEnv) fold(x *Expr, fo *Fold, as []*Expr) SVal {
	j := e.j
	c := j.c
	// arguments: slices..., n, extras...
	if len(as) != len(fo.params)+1+len(fo.extra) {
		e.fail(x, "fold %s wants %d arguments", fo.name, len(fo.params)+1+len(fo.extra))
	}
	var ts []*Term
	var types_ []types.Type
	for i := range fo.params {
		v := e.eval(as[i])
		s := e.tv(x, v)
		et := v.typ.Underlying().(*types.Slice).Elem()
		comp := j.regComp(elemComp(et), j.elemArr(et))
		ts = append(ts, c.Select(j.get(e.st, comp, j.compSort[comp]), c.Acc(s, 0)), c.Acc(s, 1))
		types_ = append(types_, et)
	}
	n := e.t(as[len(fo.params)])
	ts = append(ts, n)
	for i := range fo.extra {
		ev := e.eval(as[len(fo.params)+1+i])
		ts = append(ts, e.tv(x, ev))
		types_ = append(types_, ev.typ)
	}
	j.foldTypes[fo.name] = types_
	j.foldPkg[fo.name] = e.pkg
	r := c.App("fold$"+fo.name, fo.sortS, ts...)
	return SVal{v: Val{t: r}, typ: j.foldRet(fo)}
}

func (j *Job) foldRet(fo *Fold) types.Type {
	if fo.sortS == SReal {
		return types.Typ[types.Float32]
	}
	return nil
}

func (j *Job) cntTerm(ct, off, n, x *Term) *Term {
	return j.c.App("cnt$"+sanitize(x.sort), SInt, ct, off, n, x)
}

// neverWritten tells that a modifies item goes through unbox of a value whose
// dynamic type is statically known to be another one: nothing is written.
func (e *SpecEnv) neverWritten(x *Expr) bool {
	if x.op == "call" && x.args[0].s == "unbox" && len(x.args) == 3 {
		want := e.resolveType(x.args[2].s)
		if t, ok := e.j.boxed[e.t(x.args[1])]; ok && want != nil && !types.Identical(t, want) {
			return true
		}
		return false
	}
	switch x.op {
	case "un", "sel", "all":
		return e.neverWritten(x.args[0])
	}
	return false
}

// modItems evaluates one modifies item.
func (e *SpecEnv) modItems(x *Expr) []modItem {
	j := e.j
	c := j.c
	e.mod = true
	defer func() { e.mod = false }()
	if e.neverWritten(x) {
		return nil
	}
	switch x.op {
	case "all":
		v := e.eval(x.args[0])
		switch u := v.typ.Underlying().(type) {
		case *types.Slice:
			comp := j.regComp(elemComp(u.Elem()), j.elemArr(u.Elem()))
			return []modItem{{comp: comp, ref: c.Acc(e.tv(x, v), 0)}}
		case *types.Map:
			d, vl, l := j.mapComps(u)
			m := e.tv(x, v)
			return []modItem{{comp: d, ref: m}, {comp: vl, ref: m}, {comp: l, ref: m}}
		case *types.Pointer:
			lv := j.ptrLV(v.v, v.typ)
			return []modItem{{lv: lv}}
		}
		e.fail(x, "cannot expand")
	case "sel":
		b := e.eval(x.args[0])
		pt, ok := b.typ.Underlying().(*types.Pointer)
		if !ok {
			e.fail(x, "modifies needs a pointer base")
		}
		u := pt.Elem().Underlying().(*types.Struct)
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == x.s {
				if b.v.lv != nil {
					return []modItem{{lv: b.v.lv.extend(step{field: i, typ: u.Field(i).Type()})}}
				}
				return []modItem{{lv: j.fieldLV(e.tv(x, b), pt.Elem(), i)}}
			}
		}
		e.fail(x, "no field")
	case "un":
		v := e.eval(x.args[0])
		return []modItem{{lv: j.ptrLV(v.v, v.typ)}}
	case "call":
		switch x.args[0].s {
		case "any": // any(Type.field)
			tn := x.args[1].args[0]
			name := tn.s
			if tn.op == "sel" { // any(pkg.Type.field)
				name = tn.args[0].s + "." + tn.s
			}
			t := e.resolveType(name)
			if t == nil {
				e.fail(x, "type")
			}
			u := t.Underlying().(*types.Struct)
			for i := 0; i < u.NumFields(); i++ {
				if u.Field(i).Name() == x.args[1].s {
					l := j.fieldLV(c.Int(0), t, i)
					return []modItem{{comp: l.comp, whole: true}}
				}
			}
		case "anyelem":
			t := e.resolveType(x.args[1].s)
			if t == nil {
				e.fail(x, "type")
			}
			return []modItem{{comp: j.regComp(elemComp(t), j.elemArr(t)), whole: true}}
		case "anymap":
			t := e.resolveType(x.args[1].s)
			if t == nil {
				e.fail(x, "type")
			}
			d, v, l := j.mapComps(t.Underlying().(*types.Map))
			return []modItem{{comp: d, whole: true}, {comp: v, whole: true}, {comp: l, whole: true}}
		case "global":
			o := e.pkg.Scope().Lookup(x.args[1].s)
			if o == nil {
				e.fail(x, "global")
			}
			return []modItem{{lv: j.globalObjLV(pname(o.Pkg())+"."+o.Name(), o.Type())}}
		case "locks": // locks(x.f): the lock or all the locks in field f
			b := e.eval(x.args[1].args[0])
			lv := j.lockField(e.tv(x, b), b.typ, x.args[1].s)
			if lv == nil {
				e.fail(x, "no such lock")
			}
			switch u := lv.root.Underlying().(type) {
			case *types.Slice:
				return []modItem{{comp: j.regComp("L:"+elemComp(u.Elem()), SArr(SInt, SArr(SInt, SInt))), ref: c.Acc(j.rootGet(e.st, lv).t, 0)}}
			}
			return []modItem{{comp: j.regComp("L:"+lv.comp, SArr(SInt, SInt)), ref: lv.ref}}
		case "ghost":
			return nil
		}
	}
	e.fail(x, "modifies item not understood")
	return nil
}
