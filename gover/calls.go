package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func namedOf(t types.Type) *types.Named {
	t = types.Unalias(t)
	if p, ok := t.(*types.Pointer); ok {
		t = types.Unalias(p.Elem())
	}
	n, _ := t.(*types.Named)
	return n
}

// fnKey is the contract key of a function: pkg.Recv.Name.
func fnKey(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	if fn.Parent() != nil {
		n := fn.Name()
		if k := strings.LastIndex(n, "$"); k >= 0 {
			n = n[k:]
		}
		return fnKey(fn.Parent()) + n
	}
	pkg := ""
	if fn.Pkg != nil {
		pkg = pname(fn.Pkg.Pkg)
	} else if fn.Object() != nil && fn.Object().Pkg() != nil {
		pkg = pname(fn.Object().Pkg())
	}
	if r := fn.Signature.Recv(); r != nil {
		if n := namedOf(r.Type()); n != nil {
			if pkg == "" && n.Obj().Pkg() != nil {
				pkg = pname(n.Obj().Pkg())
			}
			return pkg + "." + n.Obj().Name() + "." + fn.Name()
		}
	}
	return pkg + "." + fn.Name()
}

func invokeKey(c *ssa.CallCommon) string {
	n := namedOf(c.Value.Type())
	if n == nil {
		if isTypeParam(c.Value.Type()) {
			return "typeparam." + c.Method.Name()
		}
		return "iface." + c.Method.Name()
	}
	if n.Obj().Pkg() == nil {
		return n.Obj().Name() + "." + c.Method.Name() // error.Error
	}
	return pname(n.Obj().Pkg()) + "." + n.Obj().Name() + "." + c.Method.Name()
}

var ignorePkgs = map[string]bool{"sync": true, "logrus": true, "log": true, "debug": true, "runtime": true, "prometheus": true, "monitoring": true}

func (j *Job) calleeKey(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		return invokeKey(c)
	}
	if f := c.StaticCallee(); f != nil {
		return fnKey(f)
	}
	return ""
}

// ignorable: calls without effect on verified state (locks, logging, metrics).
func (j *Job) ignorable(c *ssa.CallCommon) bool {
	k := j.calleeKey(c)
	if k == "" {
		return false
	}
	if sp, ok := j.p.specs.funcs[k]; ok {
		return sp.ignore
	}
	if k == "sync.Once.Do" || isLockCall(k) {
		return false
	}
	if d := strings.LastIndex(k, "."); d > 0 && j.p.specs.ignoreType[k[:d]] {
		return true
	}
	p := k[:strings.Index(k, ".")]
	return ignorePkgs[p]
}

func (j *Job) call(fr *frame, s *State, res ssa.Value, c *ssa.CallCommon, pos token.Pos) *State {
	var fv Val
	if _, isB := c.Value.(*ssa.Builtin); !isB {
		fv = j.val(s, c.Value)
	}
	var args []Val
	for _, a := range c.Args {
		args = append(args, j.val(s, a))
	}
	if len(args) == 1 && isLockCall(j.calleeKey(c)) {
		args[0] = j.lockArg(s, c.Args[0], args[0])
	}
	return j.callArgs(fr, s, res, c, fv, args, pos)
}

func (j *Job) setRes(s *State, res ssa.Value, v Val) {
	if res != nil {
		s.env[res] = v
	}
}

func (j *Job) callArgs(fr *frame, s *State, res ssa.Value, cc *ssa.CallCommon, fv Val, args []Val, pos token.Pos) *State {
	c := j.c
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		v := j.builtin(s, b, cc, args, pos)
		j.setRes(s, res, v)
		return s
	}
	rt := cc.Signature().Results()
	var resT types.Type = rt
	if rt.Len() == 1 {
		resT = rt.At(0).Type()
	}
	if k := j.calleeKey(cc); isLockCall(k) && len(args) == 1 {
		j.lockCall(s, k, args[0], nil, pos)
		return s
	}
	if j.ignorable(cc) {
		j.setRes(s, res, j.freshVal(s, "ign", resT))
		return s
	}
	if cc.IsInvoke() {
		if fv.t == nil {
			j.unsup(pos, "invoke on non-term")
		}
		if sp, ok := j.p.specs.funcs[invokeKey(cc)]; ok && fv.t.op[:3] != "fn:" {
			return j.viaContract(s, res, sp, append([]Val{fv}, args...), invokeTypes(cc), cc.Signature(), resT, pos)
		}
		// devirtualise a known dynamic type
		if t, ok := j.boxed[fv.t]; ok && strings.HasPrefix(fv.t.op, "fn:box$") {
			if m := j.p.prog.LookupMethod(t, cc.Method.Pkg(), cc.Method.Name()); m != nil {
				return j.callFn(fr, s, res, m, nil, append([]Val{{t: fv.t.args[0]}}, args...), resT, pos)
			}
		}
		if fv.t.op == "ite" && j.allBoxed(fv.t) {
			a := j.branch(s, fv.t.args[0])
			b := j.branch(s, c.Not(fv.t.args[0]))
			a = j.callArgs(fr, a, res, cc, Val{t: fv.t.args[1]}, args, pos)
			b = j.callArgs(fr, b, res, cc, Val{t: fv.t.args[2]}, args, pos)
			return j.merge([]*State{a, b})
		}
		if sp, ok := j.p.specs.funcs[invokeKey(cc)]; ok {
			return j.viaContract(s, res, sp, append([]Val{fv}, args...), invokeTypes(cc), cc.Signature(), resT, pos)
		}
		// a single implementation in the repository
		if v := j.intrinsic(s, invokeKey(cc), append([]Val{fv}, args...), cc, resT, pos); v != nil {
			j.setRes(s, res, *v)
			return s
		}
		j.safety(s, c.Not(c.Eq(fv.t, c.Int(0))), "nil interface call", pos)
		return j.externDefault(s, res, invokeKey(cc), args, cc, resT, pos)
	}
	if f := cc.StaticCallee(); f != nil {
		var binds []Val
		if fv.fn != nil {
			binds = fv.fn.binds
		}
		return j.callFnC(fr, s, res, f, binds, args, resT, pos, cc)
	}
	// dynamic call
	return j.callDyn(fr, s, res, cc, fv, args, resT, pos)
}

func (j *Job) allBoxed(t *Term) bool {
	if t.op == "ite" {
		return j.allBoxed(t.args[1]) && j.allBoxed(t.args[2])
	}
	return strings.HasPrefix(t.op, "fn:box$")
}

func invokeTypes(cc *ssa.CallCommon) []types.Type {
	ts := []types.Type{cc.Value.Type()}
	sig := cc.Signature()
	for i := 0; i < sig.Params().Len(); i++ {
		ts = append(ts, sig.Params().At(i).Type())
	}
	return ts
}

func fnParamTypes(f *ssa.Function) []types.Type {
	var ts []types.Type
	if r := f.Signature.Recv(); r != nil {
		ts = append(ts, r.Type())
	}
	for i := 0; i < f.Signature.Params().Len(); i++ {
		ts = append(ts, f.Signature.Params().At(i).Type())
	}
	return ts
}

func (j *Job) callDyn(fr *frame, s *State, res ssa.Value, cc *ssa.CallCommon, fv Val, args []Val, resT types.Type, pos token.Pos) *State {
	c := j.c
	if fv.fn != nil {
		return j.callFnC(fr, s, res, fv.fn.fn, fv.fn.binds, j.withBound(fv.fn, args), resT, pos, cc)
	}
	if fv.t == nil {
		j.unsup(pos, "call of unmerged function value (%s)", fv.poison)
	}
	if f, ok := j.fnByTerm[fv.t]; ok {
		return j.callFnC(fr, s, res, f.fn, f.binds, j.withBound(f, args), resT, pos, cc)
	}
	if fv.t.op == "ite" {
		if j.knownFns(fv.t) {
			a := j.branch(s, fv.t.args[0])
			b := j.branch(s, c.Not(fv.t.args[0]))
			a = j.callDyn(fr, a, res, cc, Val{t: fv.t.args[1]}, args, resT, pos)
			b = j.callDyn(fr, b, res, cc, Val{t: fv.t.args[2]}, args, resT, pos)
			return j.merge([]*State{a, b})
		}
	}
	key := j.fnSource(cc.Value)
	if d := strings.LastIndex(key, "."); d > 0 && j.p.specs.ignoreType[key[:d]] {
		j.setRes(s, res, j.freshVal(s, "ign", resT))
		return s
	}
	if key != "" {
		if j.p.specs.pureFn[key] {
			j.safety(s, c.Not(c.Eq(fv.t, c.Int(0))), "nil function call", pos)
			as := []*Term{fv.t}
			sig := cc.Signature()
			if et := elemSig(sig); et != nil {
				// func(items []T, i, j int): a relation between the two elements
				sl := j.term(s, args[0], cc.Args[0].Type())
				for k := 1; k <= 2; k++ {
					i := j.term(s, args[k], cc.Args[k].Type())
					j.safety(s, c.And(c.Le(c.Int(0), i), c.Lt(i, c.Acc(sl, 2))), "index in comparison function", pos)
					v := j.load(s, j.elemLV(sl, et, i))
					as = append(as, j.term(s, v, et))
				}
			} else {
				for i, a := range args {
					as = append(as, j.term(s, a, cc.Args[i].Type()))
				}
			}
			r := c.App("app$"+key, j.sortOf(resT), as...)
			j.appSigs["app$"+key] = sig
			j.setRes(s, res, Val{t: r})
			return s
		}
		if sp, ok := j.p.specs.funcs[key]; ok {
			var ts []types.Type
			for _, a := range cc.Args {
				ts = append(ts, a.Type())
			}
			return j.viaContract(s, res, sp, args, ts, cc.Signature(), resT, pos)
		}
		// every function ever stored to this global / field in the program
		if fs := j.p.storedFns(key); len(fs) > 0 {
			j.safety(s, c.Not(c.Eq(fv.t, c.Int(0))), "nil function call", pos)
			var sts []*State
			rest := s
			for k, f := range fs {
				if k == len(fs)-1 {
					sts = append(sts, j.callFnC(fr, rest.clone(), res, f, nil, args, resT, pos, cc))
					break
				}
				ch := c.Eq(fv.t, j.fnTerm(&FuncVal{fn: f}))
				a := j.branch(rest, ch)
				rest = j.branch(rest, c.Not(ch))
				sts = append(sts, j.callFnC(fr, a, res, f, nil, args, resT, pos, cc))
			}
			return j.merge(sts)
		}
	}
	// a value of a named function type: the contract of the type
	if n := namedOf(cc.Value.Type()); n != nil && n.Obj().Pkg() != nil {
		tk := pname(n.Obj().Pkg()) + "." + n.Obj().Name()
		if j.p.specs.ignoreType[tk] {
			j.setRes(s, res, j.freshVal(s, "ign", resT))
			return s
		}
		if sp, ok := j.p.specs.funcs[tk]; ok {
			var ts []types.Type
			for _, a := range cc.Args {
				ts = append(ts, a.Type())
			}
			return j.viaContract(s, res, sp, args, ts, cc.Signature(), resT, pos)
		}
	}
	if j.spec != nil && j.spec.opts["callbacks"] == "harmless" {
		j.note("function values given by the caller are assumed to leave the verified state alone")
		j.setRes(s, res, j.freshVal(s, "cb", resT))
		return s
	}
	j.unsup(pos, "call of unknown function value %s (%s)", cc.Value, key)
	return nil
}

func (j *Job) withBound(f *FuncVal, args []Val) []Val { return args }

func (j *Job) knownFns(t *Term) bool {
	if t.op == "ite" {
		return j.knownFns(t.args[1]) && j.knownFns(t.args[2])
	}
	_, ok := j.fnByTerm[t]
	return ok
}

// fnSource names the field or global a function value was loaded from.
func (j *Job) fnSource(v ssa.Value) string {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		if f, ok := v.(*ssa.Field); ok {
			n := namedOf(f.X.Type())
			if n != nil {
				return pname(n.Obj().Pkg()) + "." + n.Obj().Name() + "." + f.X.Type().Underlying().(*types.Struct).Field(f.Field).Name()
			}
		}
		if p, ok := v.(*ssa.Parameter); ok {
			return "param." + fnKey(p.Parent()) + "." + p.Name()
		}
		return ""
	}
	switch x := u.X.(type) {
	case *ssa.Global:
		return pname(x.Pkg.Pkg) + "." + x.Name()
	case *ssa.FieldAddr:
		n := namedOf(x.X.Type())
		if n == nil {
			return ""
		}
		st := n.Underlying().(*types.Struct)
		return pname(n.Obj().Pkg()) + "." + n.Obj().Name() + "." + st.Field(x.Field).Name()
	}
	return ""
}

func (j *Job) callFn(fr *frame, s *State, res ssa.Value, f *ssa.Function, binds, args []Val, resT types.Type, pos token.Pos) *State {
	return j.callFnC(fr, s, res, f, binds, args, resT, pos, nil)
}

func (j *Job) callFnC(fr *frame, s *State, res ssa.Value, f *ssa.Function, binds, args []Val, resT types.Type, pos token.Pos, cc *ssa.CallCommon) *State {
	c := j.c
	key := fnKey(f)
	if sp := j.p.specFor(key); sp != nil && !sp.inline && !sp.expand {
		if sp.ignore {
			j.setRes(s, res, j.freshVal(s, "ign", resT))
			return s
		}
		return j.viaContract(s, res, sp, args, fnParamTypes(f), f.Signature, resT, pos)
	}
	if v := j.intrinsic(s, key, args, cc, resT, pos); v != nil {
		j.setRes(s, res, *v)
		return s
	}
	if key == "sync.Once.Do" {
		j.note("sync.Once.Do may or may not run its function")
		ch := c.Fresh("once", SBool)
		a := j.branch(s, ch)
		b := j.branch(s, c.Not(ch))
		if args[1].fn == nil {
			j.unsup(pos, "Once.Do of unknown function")
		}
		a = j.callFnC(fr, a, nil, args[1].fn.fn, args[1].fn.binds, nil, types.NewTuple(), pos, nil)
		return j.merge([]*State{a, b})
	}
	if len(f.Blocks) > 0 && j.p.inRepo(f) {
		path := fr.path + "/" + fmt.Sprintf("%s@%d", key, j.callIndex(pos))
		saved := s.env
		savedD := s.defers
		exits := j.execFn(f, args, binds, s, path, fr.depth+1, false)
		var sts []*State
		var marker resKey
		for _, e := range exits {
			e.st.env = map[ssa.Value]Val{marker0: {tup: append([]Val{{t: c.True}}, e.res...)}}
			e.st.defers = nil
			sts = append(sts, e.st)
		}
		_ = marker
		if len(sts) == 0 {
			n := s.clone()
			n.guard = c.False
			return n
		}
		m := j.merge(sts)
		rv := m.env[marker0]
		m.env = make(map[ssa.Value]Val, len(saved)+1)
		for k, v := range saved {
			m.env[k] = v
		}
		m.defers = append([]deferred{}, savedD...)
		if res != nil {
			if len(rv.tup) == 2 {
				m.env[res] = rv.tup[1]
			} else {
				m.env[res] = Val{tup: rv.tup[1:]}
				if len(rv.tup) == 1 {
					m.env[res] = Val{tup: []Val{}}
				}
			}
		}
		return m
	}
	return j.externDefault(s, res, key, args, cc, resT, pos)
}

type resKey struct{}

var marker0 ssa.Value = &ssa.Const{}

func (j *Job) callIndex(pos token.Pos) int {
	if !pos.IsValid() {
		return 0
	}
	p := j.p.fset.Position(pos)
	return p.Line*1000 + p.Column
}

// externDefault: a function outside the verified text and without a contract.
func (j *Job) externDefault(s *State, res ssa.Value, key string, args []Val, cc *ssa.CallCommon, resT types.Type, pos token.Pos) *State {
	// by-value arguments only, or a package known to be effect free
	p := key[:strings.Index(key, ".")]
	safe := pureExternPkgs[p] || strings.HasPrefix(key, "error.")
	if !safe && cc != nil {
		safe = true
		for i, a := range args {
			if i < len(cc.Args) && mayShare(cc.Args[i].Type()) {
				safe = false
			}
			_ = a
		}
	}
	if !safe {
		j.unsup(pos, "call of %s without contract", key)
	}
	j.externs[key] = true
	j.setRes(s, res, j.freshVal(s, "ext", resT))
	return s
}

var pureExternPkgs = map[string]bool{"fmt": true, "strings": true, "strconv": true, "errors": true, "time": true, "context": true,
	"math": true, "rand": true, "filepath": true, "os": true, "cpu": true, "bits": true, "utf8": true, "swag": true, "middleware": true, "runtime": true, "strfmt": true, "http": true}

func mayShare(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return false
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if mayShare(u.Field(i).Type()) {
				return true
			}
		}
		return false
	case *types.Array:
		return mayShare(u.Elem())
	}
	return true
}

// ---------------------------------------------------------------- contracts at call sites

func (j *Job) viaContract(s *State, res ssa.Value, sp *FuncSpec, args []Val, ats []types.Type, sig *types.Signature, resT types.Type, pos token.Pos) *State {
	c := j.c
	j.usedSpecs[sp.key] = sp
	if sp.ignore {
		j.setRes(s, res, j.freshVal(s, "ign", resT))
		return s
	}
	j.calleeLocks(s, sp.key, args, ats, pos)
	old := s.clone()
	env := &SpecEnv{j: j, st: s, old: old, vars: map[string]SVal{}, pkg: j.p.pkgByName(sp.pkg)}
	if len(sp.params) > len(args) {
		j.unsup(pos, "contract %s lists %d parameters, call has %d", sp.key, len(sp.params), len(args))
	}
	for i, n := range sp.params {
		env.vars[n] = SVal{v: args[i], typ: ats[i]}
	}
	for _, cl := range sp.requires {
		if cl.assumed {
			continue
		}
		env.st, env.old = s, old
		g := env.boolean(cl)
		for gi, part := range splitGoal(c, g) {
			nm := "requires " + sp.key + labelOf(cl)
			if gi > 0 {
				nm += fmt.Sprintf("/%d", gi)
			}
			j.oblige(s, part, nm, pos, cl)
		}
		j.assume(s, g)
	}
	// frame
	var mods []modItem
	for _, m := range sp.modifies {
		if m.op == "call" && m.args[0].s == "ghost" {
			if g, ok := j.p.specs.ghosts[m.args[1].s]; ok {
				s.ghost[g.name] = c.Fresh("gh_"+g.name, g.srt)
			}
		}
		mods = append(mods, env.modItems(m)...)
	}
	if sp.modAny {
		j.unsup(pos, "contract %s modifies everything", sp.key)
	}
	al := c.Fresh("alloc", SInt)
	j.assume(s, c.Le(old.alloc, al))
	if !sp.pure {
		s.alloc = al
	}
	for _, m := range mods {
		j.havocItem(s, m)
	}
	// results
	var rv Val
	if sp.pure && sig.Results().Len() == 1 {
		var as []*Term
		for i, a := range args {
			as = append(as, j.term(s, a, ats[i]))
		}
		t := c.App("pure$"+sp.key, j.sortOf(resT), as...)
		j.wfLoad(s, t, resT, true)
		rv = Val{t: t}
	} else {
		rv = j.freshVal(s, "r_"+sp.key[strings.LastIndex(sp.key, ".")+1:], resT)
	}
	env2 := &SpecEnv{j: j, st: s, old: old, vars: env.vars, pkg: env.pkg}
	j.bindResults(env2, sp, sig, rv)
	// ghost updates
	var upd []struct {
		n string
		t *Term
	}
	for _, g := range sp.ghosts {
		env3 := *env2
		v := env3.eval(g.e)
		upd = append(upd, struct {
			n string
			t *Term
		}{g.name, v.v.t})
	}
	for _, u := range upd {
		s.ghost[u.n] = u.t
	}
	for _, cl := range sp.ensures {
		g := env2.boolean(cl)
		j.assume(s, g)
	}
	j.setRes(s, res, rv)
	return s
}

func labelOf(cl *Clause) string {
	if cl.label != "" {
		return "[" + cl.label + "]"
	}
	return "(" + cl.where + ")"
}

func (j *Job) bindResults(env *SpecEnv, sp *FuncSpec, sig *types.Signature, rv Val) {
	n := sig.Results().Len()
	get := func(i int) Val {
		if n == 1 {
			return rv
		}
		return rv.tup[i]
	}
	for i := 0; i < n; i++ {
		t := sig.Results().At(i).Type()
		sv := SVal{v: get(i), typ: t}
		env.vars[fmt.Sprintf("result%d", i)] = sv
		if n == 1 {
			env.vars["result"] = sv
		}
		if i < len(sp.results) {
			env.vars[sp.results[i]] = sv
		}
	}
}

type modItem struct {
	lv    *LV    // a location
	comp  string // or a component, whole or at ref
	ref   *Term
	whole bool
}

func (j *Job) havocItem(s *State, m modItem) {
	c := j.c
	if m.lv != nil {
		if m.lv.kind == lvStruct && len(m.lv.path) == 0 {
			u := m.lv.root.Underlying().(*types.Struct)
			for i := 0; i < u.NumFields(); i++ {
				j.havocItem(s, modItem{lv: j.fieldLV(m.lv.ref, m.lv.root, i)})
			}
			return
		}
		j.store(s, m.lv, Val{t: j.fresh(s, "mod", m.lv.typ())})
		return
	}
	h := j.get(s, m.comp, j.compSort[m.comp])
	if m.whole {
		s.heap[m.comp] = c.Fresh("hv_"+m.comp, h.sort)
		return
	}
	_, vs := arrParts(h.sort)
	s.heap[m.comp] = c.Store(h, m.ref, c.Fresh("hv_"+m.comp, vs))
}

// ---------------------------------------------------------------- builtins

func (j *Job) builtin(s *State, b *ssa.Builtin, cc *ssa.CallCommon, args []Val, pos token.Pos) Val {
	c := j.c
	at := func(i int) types.Type { return cc.Args[i].Type() }
	switch b.Name() {
	case "len", "cap":
		switch u := at(0).Underlying().(type) {
		case *types.Slice:
			if args[0].t == nil {
				j.unsup(pos, "len of non-term")
			}
			if b.Name() == "len" {
				return Val{t: c.Acc(args[0].t, 2)}
			}
			return Val{t: c.Acc(args[0].t, 3)}
		case *types.Basic:
			return Val{t: j.strLen(s, args[0].t)}
		case *types.Map:
			return Val{t: c.Ite(c.Eq(args[0].t, c.Int(0)), c.Int(0), j.mapLen(s, args[0].t, u))}
		case *types.Array:
			return Val{t: c.Int(u.Len())}
		case *types.Pointer:
			return Val{t: c.Int(u.Elem().Underlying().(*types.Array).Len())}
		case *types.Chan:
			r := c.Fresh("chanlen", SInt)
			c.SetRange(r, big.NewInt(0), maxLen)
			j.assume(s, c.mk("<=", SBool, c.Int(0), r))
			return Val{t: r}
		}
	case "append":
		return Val{t: j.appendOp(s, args[0].t, args[1].t, at(0), at(1), pos)}
	case "copy":
		return Val{t: j.copyOp(s, args[0].t, args[1].t, at(0), at(1), pos)}
	case "delete":
		mt := at(0).Underlying().(*types.Map)
		k := j.term(s, args[1], mt.Key())
		j.access(s, cc.Args[0], true, pos)
		if args[0].t.n != nil {
			return Val{}
		}
		j.mapDelete(s, args[0].t, mt, k)
		return Val{}
	case "min", "max":
		r := args[0].t
		for _, a := range args[1:] {
			var lt *Term
			if b.Name() == "min" {
				lt = c.Lt(a.t, r)
			} else {
				lt = c.Lt(r, a.t)
			}
			r = c.Ite(lt, a.t, r)
		}
		return Val{t: r}
	case "print", "println", "close":
		return Val{}
	case "recover":
		return Val{t: c.Int(0)}
	case "clear":
		switch u := at(0).Underlying().(type) {
		case *types.Map:
			d, _, l := j.mapComps(u)
			hd, hl := j.get(s, d, j.compSort[d]), j.get(s, l, j.compSort[l])
			_, ds := arrParts(hd.sort)
			s.heap[d] = c.Store(hd, args[0].t, c.ConstArr(ds, c.False))
			s.heap[l] = c.Store(hl, args[0].t, c.Int(0))
			return Val{}
		case *types.Slice:
			comp := j.regComp(elemComp(u.Elem()), j.elemArr(u.Elem()))
			h := j.get(s, comp, j.compSort[comp])
			x := args[0].t
			a, o, l := c.Acc(x, 0), c.Acc(x, 1), c.Acc(x, 2)
			oldC := c.Select(h, a)
			nc := c.Fresh("clr", oldC.sort)
			i := c.BoundVar("i", SInt)
			in := c.And(c.Le(o, i), c.Lt(i, c.Add(o, l)))
			j.assume(s, c.Forall([]*Term{i}, c.Eq(c.Select(nc, i), c.Ite(in, j.zero(u.Elem()), c.Select(oldC, i))), []*Term{c.Select(nc, i)}))
			s.heap[comp] = c.Store(h, a, nc)
			return Val{}
		}
	case "ssa:wrapnilchk":
		if args[0].t != nil {
			j.safety(s, c.Not(c.Eq(args[0].t, c.Int(0))), "nil dereference", pos)
		}
		return args[0]
	}
	j.unsup(pos, "builtin %s", b.Name())
	return Val{}
}

func smallConst(t *Term) (int, bool) {
	if t.n != nil && t.n.IsInt64() && t.n.Int64() >= 0 && t.n.Int64() <= 16 {
		return int(t.n.Int64()), true
	}
	return 0, false
}

func (j *Job) appendOp(s *State, x, y *Term, xt, yt types.Type, pos token.Pos) *Term {
	c := j.c
	et := xt.Underlying().(*types.Slice).Elem()
	comp := j.regComp(elemComp(et), j.elemArr(et))
	h := j.get(s, comp, j.compSort[comp])
	a, o, l, k := c.Acc(x, 0), c.Acc(x, 1), c.Acc(x, 2), c.Acc(x, 3)
	base := c.Select(h, a)
	var n *Term
	var content *Term
	if y.sort == SStr {
		n = j.strLen(s, y)
		content = nil
	} else {
		n = c.Acc(y, 2)
	}
	if m, ok := smallConst(n); ok && y.sort == SSlc {
		src := c.Select(h, c.Acc(y, 0))
		content = base
		for i := 0; i < m; i++ {
			content = c.Store(content, c.Add(o, l, c.Int(int64(i))), c.Select(src, c.Add(c.Acc(y, 1), c.Int(int64(i)))))
		}
		if m == 0 {
			return x
		}
	} else {
		content = c.Fresh("app", base.sort)
		i := c.BoundVar("i", SInt)
		st := c.Add(o, l)
		var srcAt *Term
		if y.sort == SStr {
			srcAt = c.Select(c.App("str2bytes", SArr(SInt, SInt), y), c.Sub(i, st))
		} else {
			srcAt = c.Select(c.Select(h, c.Acc(y, 0)), c.Add(c.Acc(y, 1), c.Sub(i, st)))
		}
		in := c.And(c.Le(st, i), c.Lt(i, c.Add(st, n)))
		j.assume(s, c.Forall([]*Term{i}, c.Eq(c.Select(content, i), c.Ite(in, srcAt, c.Select(base, i))), []*Term{c.Select(content, i)}))
	}
	nl := c.Add(l, n)
	j.assume(s, c.mk("<=", SBool, nl, c.BigInt(maxLen)))
	fits := c.Le(nl, k)
	// appending nothing to a nil slice stays nil
	r := j.newRef(s)
	na := c.Ite(fits, a, r)
	nk := c.Fresh("cap", SInt)
	c.SetRange(nk, big.NewInt(0), maxLen)
	j.assume(s, c.And(c.mk("<=", SBool, c.Int(0), nk), c.mk("<=", SBool, nk, c.BigInt(maxLen)), c.Le(nl, nk), c.Imp(fits, c.Eq(nk, k))))
	s.heap[comp] = c.Store(h, na, content)
	return c.Mk(SSlc, na, o, nl, nk)
}

func (j *Job) copyOp(s *State, dst, src *Term, dt, stt types.Type, pos token.Pos) *Term {
	c := j.c
	et := dt.Underlying().(*types.Slice).Elem()
	comp := j.regComp(elemComp(et), j.elemArr(et))
	h := j.get(s, comp, j.compSort[comp])
	da, do, dl := c.Acc(dst, 0), c.Acc(dst, 1), c.Acc(dst, 2)
	var sl *Term
	if src.sort == SStr {
		sl = j.strLen(s, src)
	} else {
		sl = c.Acc(src, 2)
	}
	n := c.Ite(c.Lt(sl, dl), sl, dl)
	base := c.Select(h, da)
	nc := c.Fresh("cpy", base.sort)
	i := c.BoundVar("i", SInt)
	var srcAt *Term
	if src.sort == SStr {
		srcAt = c.Select(c.App("str2bytes", SArr(SInt, SInt), src), c.Sub(i, do))
	} else {
		srcAt = c.Select(c.Select(h, c.Acc(src, 0)), c.Add(c.Acc(src, 1), c.Sub(i, do)))
	}
	in := c.And(c.Le(do, i), c.Lt(i, c.Add(do, n)))
	j.assume(s, c.Forall([]*Term{i}, c.Eq(c.Select(nc, i), c.Ite(in, srcAt, c.Select(base, i))), []*Term{c.Select(nc, i)}))
	s.heap[comp] = c.Store(h, da, nc)
	return n
}

// ---------------------------------------------------------------- intrinsics

func (j *Job) nonNilErr(s *State, hint string) *Term {
	e := j.c.Fresh(hint, SInt)
	j.assume(s, j.c.Lt(j.c.Int(0), e))
	return e
}

func (j *Job) intrinsic(s *State, key string, args []Val, cc *ssa.CallCommon, resT types.Type, pos token.Pos) *Val {
	c := j.c
	ret := func(t *Term) *Val { return &Val{t: t} }
	argT := func(i int) types.Type {
		if cc != nil && i < len(cc.Args) {
			return cc.Args[i].Type()
		}
		return nil
	}
	switch key {
	case "errors.New", "errors.Errorf", "fmt.Errorf", "status.Error", "status.Errorf":
		return ret(j.nonNilErr(s, "err"))
	case "errors.Wrap", "errors.Wrapf", "errors.WithMessage", "errors.WithStack", "errors.WithMessagef":
		e := c.Fresh("err", SInt)
		j.assume(s, c.And(c.Le(c.Int(0), e), c.Eq(c.Eq(e, c.Int(0)), c.Eq(args[0].t, c.Int(0)))))
		return ret(e)
	case "math.Abs":
		x := args[0].t
		return ret(c.Ite(c.Lt(x, c.RealRat(new(big.Rat))), j.fneg(x), x))
	case "math.Float32bits":
		r := c.App("f32bits", SInt, args[0].t)
		j.wf(s, r, types.Typ[types.Uint32])
		j.assume(s, c.Eq(c.App("f32frombits", SReal, r), args[0].t))
		return ret(r)
	case "math.Float32frombits":
		r := c.App("f32frombits", SReal, args[0].t)
		return ret(r)
	case "math.Float64bits":
		r := c.App("f64bits", SInt, args[0].t)
		j.wf(s, r, types.Typ[types.Uint64])
		j.assume(s, c.Eq(c.App("f64frombits", SReal, r), args[0].t))
		return ret(r)
	case "math.Float64frombits":
		return ret(c.App("f64frombits", SReal, args[0].t))
	case "math.Sqrt", "math.Floor", "math.Sin", "math.Cos", "math.Asin", "math.Log", "math.Ceil", "math.Round", "math.Exp", "math.Trunc":
		return ret(c.App("m_"+key[5:], SReal, args[0].t))
	case "math.Pow", "math.Atan2", "math.Mod":
		return ret(c.App("m_"+key[5:], SReal, args[0].t, args[1].t))
	case "math.Max":
		return ret(c.Ite(c.Lt(args[0].t, args[1].t), args[1].t, args[0].t))
	case "math.Min":
		return ret(c.Ite(c.Lt(args[1].t, args[0].t), args[1].t, args[0].t))
	case "math.Inf":
		r := c.App("f_inf", SReal, args[0].t)
		return ret(r)
	case "strings.HasPrefix":
		return ret(c.mk("str.prefixof", SBool, args[1].t, args[0].t))
	case "strings.HasSuffix":
		return ret(c.mk("str.suffixof", SBool, args[1].t, args[0].t))
	case "strings.Contains":
		return ret(c.mk("str.contains", SBool, args[0].t, args[1].t))
	case "strings.TrimPrefix":
		x, p := args[0].t, args[1].t
		lp := j.strLen(s, p)
		return ret(c.Ite(c.mk("str.prefixof", SBool, p, x), c.mk("str.substr", SStr, x, lp, c.Sub(j.strLen(s, x), lp)), x))
	case "strings.TrimSuffix":
		x, p := args[0].t, args[1].t
		return ret(c.Ite(c.mk("str.suffixof", SBool, p, x), c.mk("str.substr", SStr, x, c.Int(0), c.Sub(j.strLen(s, x), j.strLen(s, p))), x))
	case "strings.ToLower", "strings.ToUpper", "strings.TrimSpace":
		return ret(c.App(key, SStr, args[0].t))
	case "strings.EqualFold":
		return ret(c.App(key, SBool, args[0].t, args[1].t))
	case "strconv.Itoa":
		return ret(c.App("itoa", SStr, args[0].t))
	case "os.Getenv":
		return ret(c.App("getenv", SStr, args[0].t))
	case "atomic.LoadUint64", "atomic.LoadUint32", "atomic.LoadInt64", "atomic.LoadInt32":
		v := j.load(s, j.ptrLV(args[0], argT(0)))
		return &v
	case "atomic.StoreUint64", "atomic.StoreUint32", "atomic.StoreInt64", "atomic.StoreInt32":
		j.store(s, j.ptrLV(args[0], argT(0)), args[1])
		return &Val{}
	case "atomic.AddUint64", "atomic.AddUint32", "atomic.AddInt64", "atomic.AddInt32":
		l := j.ptrLV(args[0], argT(0))
		v := j.load(s, l)
		n := j.wrap(c.Add(v.t, args[1].t), l.typ(), true)
		j.store(s, l, Val{t: n})
		return ret(n)
	case "atomic.Int64.Load", "atomic.Int32.Load", "atomic.Uint64.Load", "atomic.Uint32.Load":
		v := j.load(s, j.atomicLV(args[0], argT(0)))
		return &v
	case "atomic.Bool.Load":
		v := j.load(s, j.atomicLV(args[0], argT(0)))
		return ret(c.Not(c.Eq(v.t, c.Int(0))))
	case "atomic.Bool.Store":
		j.store(s, j.atomicLV(args[0], argT(0)), Val{t: c.Ite(args[1].t, c.Int(1), c.Int(0))})
		return &Val{}
	case "atomic.Int64.Store", "atomic.Int32.Store", "atomic.Uint64.Store", "atomic.Uint32.Store":
		j.store(s, j.atomicLV(args[0], argT(0)), args[1])
		return &Val{}
	case "atomic.Int64.Add", "atomic.Int32.Add", "atomic.Uint64.Add", "atomic.Uint32.Add":
		l := j.atomicLV(args[0], argT(0))
		v := j.load(s, l)
		n := j.wrap(c.Add(v.t, args[1].t), l.typ(), true)
		j.store(s, l, Val{t: n})
		return ret(n)
	}
	return nil
}

func (j *Job) atomicLV(p Val, pt types.Type) *LV {
	var l *LV
	if p.lv != nil {
		l = p.lv
	} else {
		l = j.ptrLV(p, pt)
	}
	st := pt.Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == "v" {
			if l.kind == lvStruct && len(l.path) == 0 {
				return j.fieldLV(l.ref, l.root, i)
			}
			return l.extend(step{field: i, typ: st.Field(i).Type()})
		}
	}
	j.unsup(token.NoPos, "atomic type without v")
	return nil
}


// elemSig recognises func([]T, int, int) bool.
func elemSig(sig *types.Signature) types.Type {
	if sig.Params().Len() != 3 {
		return nil
	}
	sl, ok := sig.Params().At(0).Type().Underlying().(*types.Slice)
	if !ok {
		return nil
	}
	for k := 1; k <= 2; k++ {
		if b, ok := sig.Params().At(k).Type().Underlying().(*types.Basic); !ok || b.Kind() != types.Int {
			return nil
		}
	}
	return sl.Elem()
}
