package main

import (
	"fmt"
	"math/big"
	"os"
	"sort"
	"strings"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

type bigInt = big.Int

func (j *Job) batchScript(facts, goals []*Term) string {
	c := j.c
	s := NewScript(c)
	gs := make([]*Term, len(goals))
	for i, g := range goals {
		gs[i] = j.skolem(g)
	}
	goals = gs
	all := append(append([]*Term{}, facts...), goals...)
	for _, t := range j.saturate(all) {
		s.Assert(t)
	}
	for _, f := range facts {
		if f != c.True {
			s.Assert(f)
		}
	}
	for _, g := range goals {
		s.prepare(g)
	}
	for _, g := range goals {
		s.Raw("(push 1)\n(assert (not ")
		c.tree(&s.sb, g, s.named, 0)
		s.Raw("))\n(check-sat)\n(pop 1)\n(echo \"--\")\n")
	}
	return s.sb.String()
}

func runBatch(j *Job, script string, goals []*Term, ms int) []Result {
	res := make([]Result, len(goals))
	if d := os.Getenv("GOVER_DUMP"); d != "" {
		os.WriteFile(fmt.Sprintf("%s/b%05d.smt2", d, atomic.AddInt64(&dumpCtr, 1)), []byte(backends[0].pre+script), 0o644)
	}
	out, _ := runSolver(backends[0], script, ms, len(goals))
	if strings.Contains(out, "(error") {
		j.solverErr(out, script)
	}
	parts := strings.Split(out, "--")
	for k := range goals {
		if k < len(parts) {
			p := strings.TrimSpace(strings.Trim(parts[k], "\"\n "))
			switch {
			case strings.HasPrefix(p, "unsat"):
				res[k] = Proved
			case strings.HasPrefix(p, "sat"):
				res[k] = Refuted
			}
		}
	}
	return res
}

func (j *Job) oneScript(facts []*Term, goal *Term) string {
	c := j.c
	s := NewScript(c)
	goal = j.skolem(goal)
	for _, t := range j.saturate(append(append([]*Term{}, facts...), goal)) {
		s.Assert(t)
	}
	for _, f := range facts {
		if f != c.True {
			s.Assert(f)
		}
	}
	s.Assert(c.Not(goal))
	s.Raw("(check-sat)\n")
	return s.sb.String()
}

func runOne(j *Job, script string, tn Tuning) (Result, string, string) {
	ms := tn.oblMS
	if d := os.Getenv("GOVER_DUMP"); d != "" {
		os.WriteFile(fmt.Sprintf("%s/o%05d.smt2", d, atomic.AddInt64(&dumpCtr, 1)), []byte(backends[0].pre+script), 0o644)
	}
	out, _ := runSolver(backends[0], script, ms, 1)
	if strings.Contains(out, "(error") {
		j.solverErr(out, script)
	}
	if strings.HasPrefix(out, "unsat") {
		return Proved, backends[0].name, ""
	}
	type r struct {
		res Result
		by  string
	}
	ch := make(chan r, 3)
	for _, bi := range []int{1, 2, 3} {
		go func(b backend) {
			o, _ := runSolver(b, script, ms, 1)
			rr := r{Unknown, b.name}
			if strings.HasPrefix(o, "unsat") {
				rr.res = Proved
			} else if strings.HasPrefix(o, "sat") {
				rr.res = Refuted
			}
			ch <- rr
		}(backends[bi])
	}
	final := r{Unknown, backends[0].name}
	for k := 0; k < 3; k++ {
		x := <-ch
		if x.res == Proved {
			return Proved, x.by, ""
		}
		if x.res == Refuted {
			final = x
		}
	}
	model := out
	if tn.firstOnly {
		return final.res, final.by, ""
	}
	if ms > 6000 {
		ms = 6000
	}
	mo, _ := runSolver(backends[0], script+"(get-model)\n", ms, 1)
	model = mo
	if len(model) > 20000 {
		model = model[:20000]
	}
	return final.res, final.by, model
}

// ---------------------------------------------------------------- ground saturation of folds, counts, applications

func (j *Job) saturate(roots []*Term) []*Term {
	c := j.c
	var out []*Term
	seen := map[*Term]bool{}
	type item struct {
		t   *Term
		gen int
	}
	var queue []item
	apps := map[string]bool{}
	var cntQ []*Term
	fops := map[string]bool{}
	cntX := map[*Term]bool{}
	ufs := map[string]bool{}
	appFns := map[string]map[*Term]bool{}
	var visit func(t *Term, gen int)
	visit = func(t *Term, gen int) {
		if seen[t] {
			return
		}
		seen[t] = true
		for _, a := range t.args {
			visit(a, gen)
		}
		if t.op == "forall" && !t.bound && len(t.vars) == 1 {
			has := false
			c.walk(t.args[0], func(x *Term) {
				if strings.HasPrefix(x.op, "fn:cnt$") && x.args[3] == t.vars[0] {
					has = true
				}
			})
			if has {
				cntQ = append(cntQ, t)
			}
		}
		if strings.HasPrefix(t.op, "fn:") {
			n := t.op[3:]
			switch n {
			case "fadd32", "fadd64", "fmul32", "fmul64", "fsub32", "fsub64":
				fops[n] = true
			}
			if strings.HasPrefix(n, "cnt$") && !t.bound {
				cntX[t.args[3]] = true
			}
			if strings.HasPrefix(n, "app$") {
				apps[n] = true
				if appFns[n] == nil {
					appFns[n] = map[*Term]bool{}
				}
				if !t.args[0].bound {
					appFns[n][t.args[0]] = true
				}
			}
			if strings.HasPrefix(n, "u$") {
				ufs[n[2:]] = true
			}
			if strings.HasPrefix(n, "m_") {
				ufs[n] = true
			}
			if !t.bound && (strings.HasPrefix(n, "fold$") || strings.HasPrefix(n, "cnt$")) {
				queue = append(queue, item{t, gen})
			}
		}
	}
	for _, r := range roots {
		visit(r, 0)
	}
	addFact := func(f *Term, gen int) {
		if f == c.True {
			return
		}
		out = append(out, f)
		visit(f, gen)
	}
	// instantiate quantified counting facts at the elements that are being counted
	cntAx := map[string]bool{}
	instDone := map[[2]*Term]bool{}
	instAll := func() {
		var fs []*Term
		fs = append(fs, cntQ...)
		for _, q := range fs {
			for _, x := range sortedTerms(cntX) {
				if q.vars[0].sort != x.sort || instDone[[2]*Term{q, x}] || len(out) > 3000 {
					continue
				}
				instDone[[2]*Term{q, x}] = true
				addFact(c.Imp(q, c.Subst(q.args[0], map[*Term]*Term{q.vars[0]: x})), 1)
			}
		}
	}
	instAll()
	for len(queue) > 0 && len(out) < 4000 {
		if len(cntQ) > 0 {
			instAll()
		}
		it := queue[0]
		queue = queue[1:]
		t := it.t
		n := t.op[3:]
		if strings.HasPrefix(n, "fold$") {
			if it.gen < 3 {
				if f := j.unfoldFold(t); f != nil {
					addFact(f, it.gen+1)
				}
			}
			continue
		}
		// cnt(ct, off, n, x)
		ct, off, k, x := t.args[0], t.args[1], t.args[2], t.args[3]
		z := c.Int(0)
		out = append(out, c.Le(z, t), c.Imp(c.Le(k, z), c.Eq(t, z)), c.Imp(c.Le(z, k), c.Le(t, k)))
		if !cntAx[n] {
			// members occur at some position; what stands at a position is a member
			cntAx[n] = true
			bc, bo, bk, bx, bi := c.BoundVar("ct", ct.sort), c.BoundVar("o", SInt), c.BoundVar("k", SInt), c.BoundVar("x", x.sort), c.BoundVar("i", SInt)
			at := c.Select(bc, bi)
			ca := j.cntTerm(bc, bo, bk, at)
			out = append(out, c.Forall([]*Term{bc, bo, bk, bi}, c.Imp(c.And(c.mk("<=", SBool, bo, bi), c.mk("<", SBool, bi, c.mk("+", SInt, bo, bk))), c.mk("<=", SBool, c.Int(1), ca)), []*Term{ca}))
			cx := j.cntTerm(bc, bo, bk, bx)
			pos := c.App("pos$"+n, SInt, bc, bo, bk, bx)
			out = append(out, c.Forall([]*Term{bc, bo, bk, bx}, c.Imp(c.mk("<=", SBool, c.Int(1), cx), c.And(c.mk("<=", SBool, bo, pos), c.mk("<", SBool, pos, c.mk("+", SInt, bo, bk)), c.Eq(c.Select(bc, pos), bx))), []*Term{cx}))
		}
		b2i := func(b *Term) *Term { return c.Ite(b, c.Int(1), z) }
		switch ct.op {
		case "store":
			a, i, v := ct.args[0], ct.args[1], ct.args[2]
			sub := j.cntTerm(a, off, k, x)
			in := c.And(c.Le(off, i), c.Lt(i, c.Add(off, k)))
			d := c.Sub(b2i(c.Eq(v, x)), b2i(c.Eq(c.Select(a, i), x)))
			addFact(c.Eq(t, c.Add(sub, c.Ite(in, d, z))), it.gen)
		case "ite":
			addFact(c.Eq(t, c.Ite(ct.args[0], j.cntTerm(ct.args[1], off, k, x), j.cntTerm(ct.args[2], off, k, x))), it.gen)
		case "constarr":
		}
		if it.gen < 2 && k.n == nil {
			k1 := c.Sub(k, c.Int(1))
			addFact(c.Imp(c.Lt(z, k), c.Eq(t, c.Add(j.cntTerm(ct, off, k1, x), b2i(c.Eq(c.Select(ct, c.Add(off, k1)), x))))), it.gen+1)
		}
	}
	// function-valued fields: definitions of the closures that can be stored there
	var as []string
	for a := range apps {
		as = append(as, a)
	}
	sort.Strings(as)
	for _, a := range as {
		fs := j.p.storedFns(a[4:])
		for _, f := range fs {
			l := j.fnTerm(&FuncVal{fn: f})
			k := a + "|" + fmt.Sprint(l.id)
			ax, ok := j.appAx[k]
			if !ok {
				ax = j.closureAxiom(a, l, f)
				j.appAx[k] = ax
			}
			if ax != nil {
				out = append(out, ax)
			}
		}
		if len(fs) > 0 {
			for _, t := range sortedTerms(appFns[a]) {
				if t.n != nil {
					continue
				}
				or := []*Term{c.Eq(t, c.Int(0))}
				for _, f := range fs {
					or = append(or, c.Eq(t, j.fnTerm(&FuncVal{fn: f})))
				}
				out = append(out, c.Or(or...))
			}
		}
	}
	// IEEE-754 addition and multiplication commute; subtraction is antisymmetric
	for _, n := range []string{"fadd32", "fadd64", "fmul32", "fmul64", "fsub32", "fsub64"} {
		if fops[n] {
			x, y := c.BoundVar("x", SReal), c.BoundVar("y", SReal)
			l, r := c.App(n, SReal, x, y), c.App(n, SReal, y, x)
			if strings.HasPrefix(n, "fsub") {
				r = j.fneg(r)
			}
			out = append(out, c.Forall([]*Term{x, y}, c.Eq(l, r), []*Term{l}))
			if strings.HasPrefix(n, "fmul") {
				// the sign of a product; rounding keeps a bound that is itself representable
				z := c.RealRat(new(big.Rat))
				nx, ny, px, py := c.Le(x, z), c.Le(y, z), c.Le(z, x), c.Le(z, y)
				b := func(k int64) *Term { return c.RealRat(big.NewRat(k, 1)) }
				out = append(out, c.Forall([]*Term{x, y}, c.And(
					c.Imp(c.Or(c.And(px, py), c.And(nx, ny)), c.Le(z, l)),
					c.Imp(c.Or(c.And(px, ny), c.And(nx, py)), c.Le(l, z)),
					c.Imp(c.And(c.Le(b(-1024), x), c.Le(x, b(1024)), c.Le(b(-1024), y), c.Le(y, b(1024))), c.And(c.Le(b(-1<<20), l), c.Le(l, b(1<<20)))),
				), []*Term{l}))
			}
		}
	}
	// contract axioms about uninterpreted symbols
	for _, ax := range j.axiomsFor(ufs) {
		out = append(out, ax)
	}
	return out
}

// axiomsFor returns the axioms and the (separately proved) lemmas about the uninterpreted symbols in use.
func (j *Job) axiomsFor(ufs map[string]bool) []*Term {
	var out []*Term
	if len(ufs) == 0 {
		return nil
	}
	use := func(e *Expr) bool {
		rel := false
		var walk func(e *Expr)
		walk = func(e *Expr) {
			if e == nil {
				return
			}
			if e.op == "call" && e.args[0].op == "id" && ufs[e.args[0].s] {
				rel = true
			}
			for _, a := range e.args {
				walk(a)
			}
		}
		walk(e)
		return rel
	}
	ev := func(e *Expr, pkg string) *Term {
		env := &SpecEnv{j: j, st: j.initState, old: j.initState, vars: map[string]SVal{}, pkg: j.p.pkgByName(pkg)}
		return env.t(e)
	}
	for _, ax := range j.p.specs.axioms {
		if ax.label == "private" && j.lemma == nil {
			continue
		}
		if use(ax.e) {
			out = append(out, ev(ax.e, j.spec.pkg))
		}
	}
	for _, l := range j.p.specs.lemmas {
		if l == j.lemma {
			break
		}
		if use(l.e) && (j.lemma != nil || len(l.e.pats) > 0) {
			out = append(out, ev(l.e, l.pkg))
		}
	}
	return out
}

// skolem replaces the outermost universal quantifiers of a goal by fresh constants.
func (j *Job) skolem(g *Term) *Term {
	c := j.c
	switch {
	case g.op == "forall":
		if t, ok := j.skMemo[g]; ok {
			return t
		}
		m := map[*Term]*Term{}
		for _, v := range g.vars {
			j.skCtr++
			m[v] = c.Const(fmt.Sprintf("sk!%d", j.skCtr), v.sort)
		}
		r := j.skolem(c.Subst(g.args[0], m))
		j.skMemo[g] = r
		return r
	case g.op == "=>":
		return c.Imp(g.args[0], j.skolem(g.args[1]))
	case g.op == "and":
		as := make([]*Term, len(g.args))
		for i, a := range g.args {
			as[i] = j.skolem(a)
		}
		return c.And(as...)
	}
	return g
}

func (j *Job) unfoldFold(t *Term) *Term {
	c := j.c
	fo := j.p.specs.folds[t.op[8:]]
	if fo == nil {
		return nil
	}
	np := len(fo.params)
	n := t.args[2*np]
	z := c.Int(0)
	n1 := c.Sub(n, c.Int(1))
	env := &SpecEnv{j: j, st: j.initState, old: j.initState, vars: map[string]SVal{}, pkg: j.foldPkg[fo.name]}
	tys := j.foldTypes[fo.name]
	for i, p := range fo.params {
		el := c.Select(t.args[2*i], c.Add(t.args[2*i+1], n1))
		env.vars[p] = SVal{v: Val{t: el}, typ: tys[i]}
	}
	for i, p := range fo.extra {
		env.vars[p] = SVal{v: Val{t: t.args[2*np+1+i]}, typ: tys[np+i]}
	}
	as := append([]*Term{}, t.args...)
	as[2*np] = n1
	env.vars["acc"] = SVal{v: Val{t: c.App("fold$"+fo.name, fo.sortS, as...)}, typ: j.foldRet(fo)}
	env.vars["i"] = SVal{v: Val{t: n1}}
	ini := env.coerce(env.t(fo.init), fo.sortS)
	if n.n != nil && n.n.Sign() <= 0 {
		return c.Eq(t, ini)
	}
	stp := env.coerce(env.t(fo.step), fo.sortS)
	return c.And(c.Imp(c.Le(n, z), c.Eq(t, ini)), c.Imp(c.Lt(z, n), c.Eq(t, stp)))
}

// closureAxiom: app(id, args) = body(args), from the closure's own code.
func (j *Job) closureAxiom(app string, id *Term, fn *ssa.Function) (ax *Term) {
	defer func() {
		if r := recover(); r != nil {
			panic(r)
		}
	}()
	if len(fn.Blocks) == 0 || fn.Signature.Results().Len() != 1 {
		return nil
	}
	c := j.c
	st := j.initState.clone()
	st.facts = nil
	st.guard = c.True
	var args []Val
	var consts []*Term
	for i, p := range fn.Params {
		t := c.Const(fmt.Sprintf("clo_%s_%d_%d", app, id.id, i), j.sortOf(p.Type()))
		consts = append(consts, t)
		args = append(args, Val{t: t})
	}
	savedO, savedN := j.obls, j.nopanic
	j.nopanic = false
	exits := j.execFn(fn, args, nil, st, "closure", 5, false)
	j.obls, j.nopanic = savedO, savedN
	if len(exits) == 0 {
		return nil
	}
	// combine exits: each path's guard must be expressible
	var body *Term
	for i := len(exits) - 1; i >= 0; i-- {
		g := j.guardFormula(exits[i].st)
		if g == nil {
			return nil
		}
		r := exits[i].res[0].t
		if body == nil {
			body = r
		} else {
			body = c.Ite(g, r, body)
		}
	}
	m := map[*Term]*Term{}
	var bv []*Term
	if et := elemSig(fn.Signature); et != nil {
		comp := elemComp(et)
		ct := c.Select(j.get(st, comp, j.compSort[comp]), c.Acc(consts[0], 0))
		for k := 1; k <= 2; k++ {
			b := c.BoundVar(fmt.Sprintf("e%d", k), j.sortOf(et))
			bv = append(bv, b)
			m[c.Select(ct, c.Add(c.Acc(consts[0], 1), consts[k]))] = b
		}
		body = c.Subst(body, m)
		bad := false
		c.walk(body, func(t *Term) {
			if strings.HasPrefix(t.op, "const:") {
				bad = true
			}
		})
		if bad {
			panic(unsupported{"the comparison function " + fn.String() + " is not a relation between the two indexed elements"})
		}
		lhs := c.App(app, body.sort, append([]*Term{id}, bv...)...)
		return c.Forall(bv, c.Eq(lhs, body), []*Term{lhs})
	}
	for i, k := range consts {
		b := c.BoundVar(fmt.Sprintf("a%d", i), k.sort)
		bv = append(bv, b)
		m[k] = b
	}
	body = c.Subst(body, m)
	lhs := c.App(app, body.sort, append([]*Term{id}, bv...)...)
	return c.Forall(bv, c.Eq(lhs, body), []*Term{lhs})
}

// guardFormula expands the guard definition of a state in terms of inputs.
func (j *Job) guardFormula(st *State) *Term {
	c := j.c
	defs := map[*Term]*Term{}
	for _, f := range j.gather(st.facts) {
		if f.op == "=" {
			for k := 0; k < 2; k++ {
				a, b := f.args[k], f.args[1-k]
				if strings.HasPrefix(a.op, "const:g!") || strings.HasPrefix(a.op, "const:m!") {
					defs[a] = b
					break
				}
			}
		}
	}
	t := st.guard
	for i := 0; i < 50; i++ {
		n := c.Subst(t, defs)
		if n == t {
			break
		}
		t = n
	}
	return t
}

func sortedTerms(m map[*Term]bool) []*Term {
	var out []*Term
	for t := range m {
		out = append(out, t)
	}
	sort.Slice(out, func(a, b int) bool { return out[a].id < out[b].id })
	return out
}
