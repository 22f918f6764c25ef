package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Obl struct {
	name  string
	guard *Term
	goal  *Term
	facts *FNode
	cand  *Cand
	pos   token.Pos
	props []string
	src   string
	where string
	smoke bool
	res   Result
	by    string
	model string
	ms    int64
}

type Job struct {
	p         *Program
	c         *Ctx
	fn        *ssa.Function
	spec      *FuncSpec
	obls      []*Obl
	loops     map[string]*LoopInfo
	notes     map[string]bool
	externs   map[string]bool
	usedSpecs map[string]*FuncSpec
	reached   map[string]bool
	stack     []*ssa.Function
	changed   bool
	nopanic   bool
	fctr      int
	cellCtr   int
	iterCtr   int
	fnCtr     int
	iters     []*Iter
	cellType  map[int]types.Type
	compSort  map[string]string
	sortMemo  map[types.Type]string
	fnIDs     map[*ssa.Function]*Term
	fnByTerm  map[*Term]*FuncVal
	fnNums    map[*ssa.Function]int
	typeNums  map[string]int
	boxed     map[*Term]types.Type
	boxLV     map[*Term]Val
	escMemo   map[*ssa.Alloc]bool
	appSigs   map[string]*types.Signature
	appAx     map[string]*Term
	foldTypes map[string][]types.Type
	foldPkg   map[string]*types.Package
	alloc0    *Term
	inGo      int
	topParams []SVal
	topVars   map[string]SVal
	topMods   map[string][]*Term
	initState *State
	sink      *State
	debug     bool
	qcache    map[string]Result
	passes    int
	keep      map[string]map[string]bool
	lemma     *Lemma
	f32       map[*Term]bool
	lits      map[*Term]bool
	skMemo    map[*Term]*Term
	skCtr     int
	hints     map[string]bool
}

type OblReport struct {
	Name   string   `json:"name"`
	Where  string   `json:"where,omitempty"`
	At     string   `json:"at,omitempty"`
	Result string   `json:"result"`
	By     string   `json:"by,omitempty"`
	Props  []string `json:"props,omitempty"`
	Src    string   `json:"src,omitempty"`
	Model  string   `json:"-"`
	MS     int64    `json:"ms"`
}

type JobResult struct {
	Func        string
	Status      string // proved, failed, unsupported
	Reason      string
	Obls        []*OblReport
	Invs        int
	Loops       int
	Passes      int
	Notes       []string
	Externs     []string
	UsedSpecs   []string
	Reached     []string
	Wall        float64
	Pos         string
	InvKept     []string
	LoopQueries int
}

func (p *Program) newJob(fn *ssa.Function, spec *FuncSpec) *Job {
	j := &Job{p: p, c: NewCtx(), fn: fn, spec: spec, loops: map[string]*LoopInfo{}, qcache: map[string]Result{}, skMemo: map[*Term]*Term{}}
	j.debug = os.Getenv("GOVER_DEBUG") != ""
	return j
}

func (j *Job) reset() {
	c := j.c
	c.fresh = map[string]int{}
	c.birth = map[*Term]int{}
	c.seq = 0
	c.rng = map[*Term][2]*bigInt{}
	c.zeroOff = map[*Term]bool{}
	j.obls = nil
	j.notes = map[string]bool{}
	j.externs = map[string]bool{}
	j.usedSpecs = map[string]*FuncSpec{}
	j.reached = map[string]bool{}
	j.stack = nil
	j.changed = false
	j.fctr, j.cellCtr, j.iterCtr, j.fnCtr = 0, 0, 0, 0
	j.iters = nil
	j.cellType = map[int]types.Type{}
	if j.compSort == nil { // kept across passes: a component a loop modifies is known from the start
		j.compSort = map[string]string{}
	}
	j.sortMemo = map[types.Type]string{}
	j.fnIDs = map[*ssa.Function]*Term{}
	j.fnByTerm = map[*Term]*FuncVal{}
	if j.fnNums == nil {
		j.fnNums = map[*ssa.Function]int{}
		j.typeNums = map[string]int{}
	}
	j.boxed = map[*Term]types.Type{}
	j.boxLV = map[*Term]Val{}
	j.escMemo = map[*ssa.Alloc]bool{}
	j.appSigs = map[string]*types.Signature{}
	j.appAx = map[string]*Term{}
	j.foldTypes = map[string][]types.Type{}
	j.foldPkg = map[string]*types.Package{}
	j.topMods = map[string][]*Term{}
	j.topParams = nil
	j.topVars = map[string]SVal{}
	j.sink = nil
	j.f32 = map[*Term]bool{}
	j.lits = map[*Term]bool{}
}

func (j *Job) run() {
	j.reset()
	c := j.c
	fn := j.fn
	sp := j.spec
	j.nopanic = sp.nopanic
	st := &State{guard: c.True, env: map[ssa.Value]Val{}, heap: map[string]*Term{}, cells: map[int]Val{}, ghost: map[string]*Term{}}
	j.alloc0 = c.Const("alloc@0", SInt)
	st.alloc = j.alloc0
	j.assume(st, c.Lt(c.Int(0), j.alloc0))
	env := &SpecEnv{j: j, st: st, vars: map[string]SVal{}, pkg: j.p.pkgByName(sp.pkg)}
	var args []Val
	for i, p := range fn.Params {
		nm := p.Name()
		t := c.Const("in_"+fmt.Sprint(i)+"_"+nm, j.sortOf(p.Type()))
		j.wf(st, t, p.Type())
		v := Val{t: t}
		if i == 0 && fn.Signature.Recv() != nil && isRef(p.Type()) {
			j.assume(st, c.Not(c.Eq(t, c.Int(0))))
		}
		args = append(args, v)
		sv := SVal{v: v, typ: p.Type()}
		j.topParams = append(j.topParams, sv)
		if i < len(sp.params) {
			env.vars[sp.params[i]] = sv
			j.topVars[sp.params[i]] = sv
		}
	}
	if len(sp.params) > len(fn.Params) {
		panic(unsupported{fmt.Sprintf("contract lists %d parameters, function has %d", len(sp.params), len(fn.Params))})
	}
	var binds []Val
	for i, p := range fn.FreeVars {
		t := c.Const("fv_"+fmt.Sprint(i)+"_"+p.Name(), j.sortOf(p.Type()))
		j.wf(st, t, p.Type())
		binds = append(binds, Val{t: t})
		if isRef(p.Type()) {
			j.assume(st, c.Not(c.Eq(t, c.Int(0))))
		}
		if pt, ok := p.Type().Underlying().(*types.Pointer); ok {
			// captured by reference: the name stands for the current value
			env.vars[p.Name()] = SVal{v: j.load(st, j.ptrLV(Val{t: t}, p.Type())), typ: pt.Elem()}
		} else {
			env.vars[p.Name()] = SVal{v: Val{t: t}, typ: p.Type()}
		}
	}
	old := st.clone()
	j.initState = old
	env.old = old
	for _, cl := range sp.requires {
		g := env.boolean(cl)
		j.assume(st, g)
		for _, part := range splitGoal(c, g) {
			j.lits[part] = true
		}
	}
	old.facts = st.facts
	j.obls = append(j.obls, &Obl{name: "smoke: precondition satisfiable", guard: st.guard, goal: c.False, facts: st.facts, smoke: true})
	var mods []modItem
	for _, m := range sp.modifies {
		mods = append(mods, env.modItems(m)...)
	}
	for _, m := range mods {
		comp, ref := m.comp, m.ref
		if m.lv != nil {
			if m.lv.kind == lvStruct {
				u := m.lv.root.Underlying().(*types.Struct)
				for i := 0; i < u.NumFields(); i++ {
					l := j.fieldLV(m.lv.ref, m.lv.root, i)
					j.topMods[l.comp] = append(j.topMods[l.comp], l.ref)
				}
				continue
			}
			comp, ref = m.lv.comp, m.lv.ref
		}
		if !m.whole {
			j.topMods[comp] = append(j.topMods[comp], ref)
		}
	}
	s1 := st.clone()
	exits := j.execFn(fn, args, binds, s1, fnKey(fn), 0, true)
	for k, e := range exits {
		if e.st.guard == c.False {
			continue
		}
		env2 := &SpecEnv{j: j, st: e.st, old: old, vars: map[string]SVal{}, pkg: env.pkg}
		for n, v := range env.vars {
			env2.vars[n] = v
		}
		var rv Val
		if len(e.res) == 1 {
			rv = e.res[0]
		} else {
			rv = Val{tup: e.res}
		}
		j.bindResults(env2, sp, fn.Signature, rv)
		for _, cl := range sp.ensures {
			if cl.assumed {
				continue
			}
			g := env2.boolean(cl)
			for gi, part := range splitGoal(c, g) {
				nm := "ensures" + labelOf(cl)
				if gi > 0 {
					nm += fmt.Sprintf("/%d", gi)
				}
				if len(exits) > 1 {
					nm += fmt.Sprintf(" @exit%d", k)
				}
				j.oblige(e.st, part, nm, e.pos, cl)
			}
		}
		j.frame(e, mods, k)
		j.obls = append(j.obls, &Obl{name: fmt.Sprintf("smoke: exit%d", k), guard: e.st.guard, goal: c.False, facts: e.st.facts, smoke: true, pos: e.pos})
	}
}

// splitGoal splits top-level conjunctions.
func splitGoal(c *Ctx, g *Term) []*Term {
	switch g.op {
	case "and":
		var out []*Term
		for _, a := range g.args {
			out = append(out, splitGoal(c, a)...)
		}
		return out
	case "=>":
		var out []*Term
		for _, b := range splitGoal(c, g.args[1]) {
			out = append(out, c.Imp(g.args[0], b))
		}
		return out
	}
	return []*Term{g}
}

func (j *Job) frame(e Exit, mods []modItem, k int) {
	c := j.c
	var comps []string
	for m := range e.st.heap {
		comps = append(comps, m)
	}
	sort.Strings(comps)
	for _, m := range comps {
		srt := j.compSort[m]
		h0 := c.Const(m+"@0", srt)
		h1 := e.st.heap[m]
		if h0 == h1 {
			continue
		}
		if j.p.specs.frameFree[m] {
			continue
		}
		if m[0] == 'G' {
			ok := false
			for _, x := range mods {
				if x.lv != nil && x.lv.comp == m {
					ok = true
				}
			}
			if !ok {
				j.oblige(e.st, c.Eq(h0, h1), "frame "+m, e.pos, nil)
			}
			continue
		}
		whole := false
		r := c.Fresh("frameref", SInt)
		cond := []*Term{c.Le(c.Int(0), r), c.Lt(r, j.alloc0)}
		if isLockComp(m) {
			cond = cond[:1]
		}
		for _, x := range mods {
			switch {
			case x.lv != nil && x.lv.kind == lvStruct:
				u := x.lv.root.Underlying().(*types.Struct)
				for i := 0; i < u.NumFields(); i++ {
					if fieldComp(x.lv.root, u.Field(i).Name()) == m {
						cond = append(cond, c.Not(c.Eq(r, x.lv.ref)))
					}
				}
			case x.lv != nil && x.lv.comp == m:
				cond = append(cond, c.Not(c.Eq(r, x.lv.ref)))
			case x.comp == m && x.whole:
				whole = true
			case x.comp == m:
				cond = append(cond, c.Not(c.Eq(r, x.ref)))
			}
		}
		if whole {
			continue
		}
		goal := c.Imp(c.And(cond...), c.Eq(c.Select(h1, r), c.Select(h0, r)))
		j.oblige(e.st, goal, "frame "+m, e.pos, nil)
	}
	// ghost state not mentioned in any update/ensures must be unchanged
	for g, t := range e.st.ghost {
		gv, ok := j.p.specs.ghosts[g]
		if !ok {
			continue
		}
		t0 := c.Const("ghost_"+gv.name+"@0", gv.srt)
		if t == t0 {
			continue
		}
		allowed := false
		for _, m := range j.spec.modifies {
			if m.op == "call" && m.args[0].s == "ghost" && m.args[1].s == g {
				allowed = true
			}
		}
		if !allowed {
			j.oblige(e.st, c.Eq(t, t0), "frame ghost "+g, e.pos, nil)
		}
	}
}

// ---------------------------------------------------------------- driver

type Tuning struct {
	candMS, oblMS int
	maxPass       int
	stop          time.Time
	firstOnly     bool // a failure is not final: no counterexample wanted
}

// verify decides a function. When the candidate invariants that survived an earlier run are on record,
// only those are tried first (they are checked like any other candidate); failing that, all of them.
func (j *Job) verify(tn Tuning) (r *JobResult) {
	t0 := time.Now()
	defer func() { r.Wall = time.Since(t0).Seconds() }()
	if h := j.p.hints[j.spec.key]; h != nil && !j.p.noHints {
		j.hints = h
		t2 := tn
		t2.firstOnly = true
		t2.candMS *= 5 // these held before: on a busy machine, wait for the answer
		r = j.verify1(t2)
		if r.Status == "proved" {
			return r
		}
		n := j.p.newJob(j.fn, j.spec)
		*j = *n
	}
	return j.verify1(tn)
}

func (j *Job) verify1(tn Tuning) (r *JobResult) {
	t0 := time.Now()
	r = &JobResult{Func: j.spec.key, Pos: j.p.pos(j.fn.Pos())}
	defer func() { r.Wall = time.Since(t0).Seconds() }()
	defer func() {
		if x := recover(); x != nil {
			if u, ok := x.(unsupported); ok {
				r.Status, r.Reason = "unsupported", u.msg
				return
			}
			r.Status, r.Reason = "unsupported", fmt.Sprintf("internal error: %v", x)
			if j.debug {
				fmt.Fprintf(os.Stderr, "%s: %v\n%s\n", j.spec.key, x, debug.Stack())
			}
		}
	}()
	for pass := 0; ; pass++ {
		j.passes = pass
		if !tn.stop.IsZero() && time.Now().After(tn.stop) {
			panic(unsupported{"out of time"})
		}
		if pass > tn.maxPass {
			panic(unsupported{"loop analysis did not converge"})
		}
		j.run()
		if j.changed {
			for _, li := range j.loops {
				li.seen = nil
			}
			continue
		}
		if j.pruneRefs() {
			continue
		}
		dropped := j.checkCands(tn)
		if j.debug {
			fmt.Fprintf(os.Stderr, "%s pass %d: %d obls, dropped %d\n", j.spec.key, pass, len(j.obls), dropped)
		}
		if dropped == 0 {
			break
		}
	}
	r.Passes = j.passes + 1
	// final obligations
	var todo []*Obl
	for _, o := range j.obls {
		if o.cand == nil {
			todo = append(todo, o)
		}
	}
	j.checkFinal(todo, tn)
	r.Status = "proved"
	reach := false
	nexit := 0
	for _, o := range todo {
		rep := &OblReport{Name: o.name, Where: o.where, At: j.p.pos(o.pos), Result: o.res.String(), By: o.by, Props: o.props, Src: o.src, Model: o.model, MS: o.ms}
		if o.smoke {
			if strings.HasPrefix(o.name, "smoke: exit") {
				nexit++
				if o.res != Proved {
					reach = true
				}
			} else if o.res == Proved {
				r.Status = "failed"
				rep.Name = "vacuity: " + o.name
				rep.Result = "precondition unsatisfiable"
				r.Obls = append(r.Obls, rep)
			}
			continue
		}
		r.Obls = append(r.Obls, rep)
		if o.res != Proved {
			r.Status = "failed"
		}
	}
	if nexit > 0 && !reach {
		r.Status = "failed"
		r.Obls = append(r.Obls, &OblReport{Name: "vacuity: some exit reachable", Result: "no exit reachable under the contract"})
	}
	r.Loops = len(j.loops)
	for _, o := range j.obls {
		if o.cand != nil {
			r.Invs++
		}
	}
	for _, o := range j.obls {
		if o.cand != nil && !o.cand.li.dropped[o.cand.key] {
			r.InvKept = append(r.InvKept, o.cand.li.key+"|"+o.cand.key)
		}
	}
	for k := range j.notes {
		r.Notes = append(r.Notes, k)
	}
	for k := range j.externs {
		r.Externs = append(r.Externs, k)
	}
	for k := range j.usedSpecs {
		r.UsedSpecs = append(r.UsedSpecs, k)
	}
	for k := range j.reached {
		r.Reached = append(r.Reached, k)
	}
	sort.Strings(r.Notes)
	sort.Strings(r.Externs)
	sort.Strings(r.UsedSpecs)
	sort.Strings(r.Reached)
	return r
}

// checkCands checks the candidate invariants, dropping the failing ones; returns how many were dropped.
func (j *Job) checkCands(tn Tuning) int {
	type group struct {
		facts *FNode
		guard *Term
		os    []*Obl
	}
	gm := map[string]*group{}
	var gs []*group
	for _, o := range j.obls {
		if o.cand == nil || o.cand.li.dropped[o.cand.key] {
			continue
		}
		if o.goal == j.c.True {
			continue
		}
		k := fmt.Sprintf("%p|%d|%v", o.facts, o.guard.id, o.cand.user)
		g := gm[k]
		if g == nil {
			g = &group{facts: o.facts, guard: o.guard}
			gm[k] = g
			gs = append(gs, g)
		}
		g.os = append(g.os, o)
	}
	var mu sync.Mutex
	var wg sync.WaitGroup
	dropped := 0
	for _, g := range gs {
		facts := append(j.gather(g.facts), g.guard)
		fk := factKey(facts)
		var pend []*Obl
		mu.Lock()
		for _, o := range g.os {
			if res, ok := j.qcache[fmt.Sprintf("%s>%d", fk, o.goal.id)]; ok {
				if res != Proved {
					o.cand.li.dropped[o.cand.key] = true
					dropped++
				}
				continue
			}
			pend = append(pend, o)
		}
		mu.Unlock()
		// chunk
		for len(pend) > 0 {
			n := len(pend)
			if n > 25 {
				n = 25
			}
			chunk := pend[:n]
			pend = pend[n:]
			wg.Add(1)
			goals := make([]*Term, len(chunk))
			for i, o := range chunk {
				goals[i] = o.goal
			}
			ms := tn.candMS
			if chunk[0].cand.user {
				ms *= 3
			}
			script := j.batchScript(facts, goals)
			watch := map[int]string{}
			if w := os.Getenv("GOVER_WATCH"); w != "" {
				for i, o := range chunk {
					if strings.Contains(o.name+" "+o.cand.li.key+" "+o.cand.key, w) {
						watch[i] = j.oneScript(facts, goals[i])
					}
				}
			}
			go func() {
				defer wg.Done()
				res := runBatch(j, script, goals, ms)
				mu.Lock()
				defer mu.Unlock()
				for i, sc := range watch {
					if res[i] != Proved {
						os.WriteFile(fmt.Sprintf("/tmp/dump/w%d.smt2", atomic.AddInt64(&dumpCtr, 1)), []byte(backends[0].pre+sc), 0o644)
					}
				}
				for i, o := range chunk {
					j.qcache[fmt.Sprintf("%s>%d", fk, o.goal.id)] = res[i]
					if res[i] != Proved && !o.cand.li.dropped[o.cand.key] {
						o.cand.li.dropped[o.cand.key] = true
						dropped++
						if j.debug && o.cand.user {
							fmt.Fprintf(os.Stderr, "  drop %s %s %s (%v) at %s\n", o.name, o.cand.li.key, o.cand.key, res[i], j.p.pos(o.pos))
						}
					}
				}
			}()
		}
	}
	wg.Wait()
	return dropped
}

func factKey(ts []*Term) string {
	h := uint64(1469598103934665603)
	for _, t := range ts {
		h ^= uint64(t.id)
		h *= 1099511628211
	}
	return fmt.Sprintf("%x/%d", h, len(ts))
}

func (j *Job) checkFinal(todo []*Obl, tn Tuning) {
	var wg sync.WaitGroup
	for _, o := range todo {
		if o.goal == j.c.True {
			o.res = Proved
			o.by = "simplifier"
			continue
		}
		if o.guard == j.c.False {
			o.res = Proved
			o.by = "simplifier"
			continue
		}
		facts := append(j.gather(o.facts), o.guard)
		if o.smoke {
			s := j.batchScript(facts, []*Term{o.goal})
			wg.Add(1)
			go func(o *Obl) {
				defer wg.Done()
				o.res = runBatch(j, s, []*Term{o.goal}, 1000)[0]
			}(o)
			continue
		}
		script := j.oneScript(facts, o.goal)
		wg.Add(1)
		go func(o *Obl) {
			defer wg.Done()
			t := time.Now()
			o.res, o.by, o.model = runOne(j, script, tn)
			o.ms = time.Since(t).Milliseconds()
		}(o)
	}
	wg.Wait()
}

// verifyLemma proves a lemma over uninterpreted symbols, by strong induction on one variable if asked.
func (p *Program) verifyLemma(l *Lemma, tn Tuning) *JobResult {
	t0 := time.Now()
	j := &Job{p: p, c: NewCtx(), spec: &FuncSpec{pkg: l.pkg, key: "lemma " + l.name}, loops: map[string]*LoopInfo{}, qcache: map[string]Result{}, skMemo: map[*Term]*Term{}, lemma: l}
	r := &JobResult{Func: "lemma " + l.name, Status: "proved", Pos: l.where}
	defer func() {
		r.Wall = time.Since(t0).Seconds()
		if x := recover(); x != nil {
			r.Status, r.Reason = "unsupported", fmt.Sprint(x)
		}
	}()
	j.reset()
	c := j.c
	st := &State{guard: c.True, env: map[ssa.Value]Val{}, heap: map[string]*Term{}, cells: map[int]Val{}, ghost: map[string]*Term{}}
	j.alloc0 = c.Const("alloc@0", SInt)
	st.alloc = j.alloc0
	j.initState = st
	env := &SpecEnv{j: j, st: st, old: st, vars: map[string]SVal{}, pkg: p.pkgByName(l.pkg)}
	goal := env.t(l.e)
	var facts []*Term
	if l.by != "" && goal.op == "forall" {
		var v *Term
		for _, x := range goal.vars {
			if strings.HasPrefix(x.op, "var:"+l.by+"?") {
				v = x
			}
		}
		if v == nil {
			panic(unsupported{"induction variable " + l.by + " not found"})
		}
		n := c.Const("ind", SInt)
		ih := c.Subst(goal.args[0], map[*Term]*Term{})
		facts = append(facts, c.Le(c.Int(0), n))
		facts = append(facts, c.Forall(goal.vars, c.Imp(c.And(c.Le(c.Int(0), v), c.Lt(v, n)), ih), goal.pats...))
		var rest []*Term
		for _, x := range goal.vars {
			if x != v {
				rest = append(rest, x)
			}
		}
		body := c.Subst(goal.args[0], map[*Term]*Term{v: n})
		// the statement must be trivial for negative values of the induction variable
		neg := c.Subst(goal.args[0], map[*Term]*Term{v: c.Const("indneg", SInt)})
		o2 := &Obl{name: "base (negative values)", goal: c.Forall(rest, c.Imp(c.Lt(c.Const("indneg", SInt), c.Int(0)), neg)), guard: c.True}
		j.obls = append(j.obls, o2)
		goal = c.Forall(rest, body)
	}
	for _, g := range splitGoal(c, goal) {
		j.obls = append(j.obls, &Obl{name: "step", goal: g, guard: c.True})
	}
	for _, o := range j.obls {
		fs := facts
		if o.name != "step" {
			fs = nil
		}
		t := time.Now()
		o.res, o.by, o.model = runOne(j, j.oneScript(fs, o.goal), tn)
		rep := &OblReport{Name: "lemma " + l.name + " " + o.name, Result: o.res.String(), By: o.by, MS: time.Since(t).Milliseconds(), Src: l.src, Where: l.where, Model: o.model}
		r.Obls = append(r.Obls, rep)
		if o.res != Proved {
			r.Status = "failed"
		}
	}
	return r
}

// specPkg is the package whose opaque predicates this job may look into.
func (j *Job) specPkg() string {
	if j.lemma != nil {
		return j.lemma.pkg
	}
	if j.spec != nil {
		return j.spec.pkg
	}
	return ""
}
