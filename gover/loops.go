package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type LoopInfo struct {
	key      string
	mod      map[string]bool    // heap components written in the loop
	refs     map[string][]*Term // components written only at these loop-invariant refs
	general  map[string]bool    // components needing a general havoc
	cells    map[int]bool
	ghosts   map[string]bool
	dropped  map[string]bool
	allocMod bool
	kept     int
	seen     map[string]map[*Term]bool // locations written in the current pass
	pruned   map[string]int
}

type Cand struct {
	key  string
	eval func(st *State) *Term
	li   *LoopInfo
	user bool
}

func (j *Job) loopInfo(key string) *LoopInfo {
	li, ok := j.loops[key]
	if !ok {
		li = &LoopInfo{key: key, mod: map[string]bool{}, refs: map[string][]*Term{}, general: map[string]bool{},
			cells: map[int]bool{}, ghosts: map[string]bool{}, dropped: map[string]bool{}}
		j.loops[key] = li
	}
	return li
}

func (j *Job) enterLoop(fr *frame, b *ssa.BasicBlock, s *State) *State {
	c := j.c
	// a loop header may be executed several times in one pass (inlined at several sites: different path)
	key := fr.path + "#" + fmt.Sprint(b.Index)
	li := j.loopInfo(key)
	h := &hdrInfo{li: li}
	fr.hdrs[b] = h
	entry := s.clone()
	h.entry = entry
	c.seq++
	h.seq = c.seq

	// havoc
	hs := s.clone()
	g := c.Fresh("lp", SBool)
	j.fctr++
	hs.facts = &FNode{id: j.fctr, parents: []*FNode{s.facts}, fact: c.Imp(g, s.guard)}
	hs.guard = g
	if li.allocMod {
		hs.alloc = c.Fresh("alloc", SInt)
		j.assume(hs, c.Le(s.alloc, hs.alloc))
	}
	var phis []*ssa.Phi
	for _, in := range b.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, ph)
	}
	for _, ph := range phis {
		v := s.env[ph]
		if v.t == nil {
			if v.lv != nil || v.fn != nil {
				// keep (checked equal at the back edge)
				continue
			}
			hs.env[ph] = Val{poison: "loop-carried non-term"}
			continue
		}
		nm := ph.Comment
		if nm == "" {
			nm = ph.Name()
		}
		t := c.Fresh("phi_"+nm, v.t.sort)
		j.wfo(hs, t, ph.Type(), false)
		hs.env[ph] = Val{t: t}
	}
	var cells []int
	for id := range li.cells {
		cells = append(cells, id)
	}
	sort.Ints(cells)
	for _, id := range cells {
		v, ok := s.cells[id]
		if !ok {
			continue
		}
		if v.t == nil {
			hs.cells[id] = Val{poison: "loop-modified non-term cell"}
			continue
		}
		t := c.Fresh("cell", v.t.sort)
		if ty := j.cellType[id]; ty != nil {
			j.wfo(hs, t, ty, false)
		}
		hs.cells[id] = Val{t: t}
	}
	var comps []string
	for m := range li.mod {
		comps = append(comps, m)
	}
	sort.Strings(comps)
	for _, m := range comps {
		srt := j.compSort[m]
		if srt == "" {
			continue
		}
		old := j.get(s, m, srt)
		if rs, ok := li.refs[m]; ok && !li.general[m] {
			t := old
			_, vs := arrParts(srt)
			for _, r := range rs {
				t = c.Store(t, r, c.Fresh("lh_"+m, vs))
			}
			hs.heap[m] = t
			continue
		}
		hs.heap[m] = c.Fresh("lhw_"+m, srt)
	}
	for gname := range li.ghosts {
		if t, ok := s.ghost[gname]; ok {
			hs.ghost[gname] = c.Fresh("gh_"+gname, t.sort)
		} else if t := j.ghostInit(gname); t != nil {
			hs.ghost[gname] = c.Fresh("gh_"+gname, t.sort)
		}
	}
	h.head = hs.clone()

	h.cands = j.candidates(fr, b, h, phis, comps)
	for _, cd := range h.cands {
		t := j.candTerm(cd, entry)
		if t == nil {
			continue
		}
		j.obls = append(j.obls, &Obl{name: "inv-entry", guard: entry.guard, goal: t, facts: entry.facts, cand: cd, pos: loopPos(b)})
	}
	for _, cd := range h.cands {
		t := j.candTerm(cd, hs)
		if t == nil {
			continue
		}
		j.assume(hs, t)
	}
	h.head = hs.clone()
	return hs
}

func loopPos(b *ssa.BasicBlock) token.Pos {
	for _, i := range b.Instrs {
		if i.Pos().IsValid() {
			return i.Pos()
		}
	}
	return token.NoPos
}

func (j *Job) candTerm(cd *Cand, st *State) (t *Term) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(unsupported); ok {
				if j.debug {
					fmt.Println("cand eval failed", cd.key, r)
				}
				cd.li.dropped[cd.key] = true
				t = nil
				return
			}
			panic(r)
		}
	}()
	return cd.eval(st)
}

func (j *Job) backEdge(fr *frame, h *hdrInfo, b *ssa.BasicBlock, s *State) {
	c := j.c
	li := h.li
	chg := func() { j.changed = true }
	// modified components
	for k, t := range s.heap {
		hd := j.get(h.head, k, j.compSort[k])
		if t == hd {
			continue
		}
		if !li.mod[k] {
			li.mod[k] = true
			chg()
		}
		if li.general[k] {
			continue
		}
		if !strings.HasPrefix(j.compSort[k], "(Array Int") || k[0] == 'G' {
			if !li.general[k] {
				li.general[k] = true
				chg()
			}
			continue
		}
		refs := map[*Term]bool{}
		// t is derived from hd by stores, but the simplifier may have collapsed a store onto one of
		// hd's own: stop at any base of hd and count hd's stores above it as written
		stops := map[*Term]bool{hd: true}
		for b := hd; b.op == "store"; b = b.args[0] {
			stops[b.args[0]] = true
		}
		hit := map[*Term]bool{}
		ok := peel(t, stops, hit, refs, map[*Term]bool{})
		for b := hd; b.op == "store"; b = b.args[0] {
			if hit[b] {
				delete(hit, b)
			}
			if len(hit) == 0 {
				break
			}
			refs[b.args[1]] = true
		}
		if ok {
			for r := range refs {
				if !j.stable(r, h.seq) {
					ok = false
				}
			}
		}
		if !ok {
			li.general[k] = true
			delete(li.refs, k)
			chg()
			continue
		}
		have := map[*Term]bool{}
		for _, r := range li.refs[k] {
			have[r] = true
		}
		if li.seen == nil {
			li.seen = map[string]map[*Term]bool{}
		}
		if li.seen[k] == nil {
			li.seen[k] = map[*Term]bool{}
		}
		for r := range refs {
			li.seen[k][r] = true
			if !have[r] {
				li.refs[k] = append(li.refs[k], r)
				sort.Slice(li.refs[k], func(a, b int) bool { return li.refs[k][a].id < li.refs[k][b].id })
				chg()
			}
		}
		if len(li.refs[k]) > 6 {
			li.general[k] = true
			chg()
		}
	}
	for id, v := range s.cells {
		hv, ok := h.head.cells[id]
		if !ok {
			continue
		}
		if !sameVal(v, hv) && !li.cells[id] {
			li.cells[id] = true
			chg()
		}
	}
	for k, t := range s.ghost {
		ht, ok := h.head.ghost[k]
		if !ok {
			ht = j.ghostInit(k)
		}
		if ht != nil && ht != t && !li.ghosts[k] {
			li.ghosts[k] = true
			chg()
		}
	}
	if s.alloc != h.head.alloc && !li.allocMod {
		li.allocMod = true
		chg()
	}
	for _, in := range b.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		hv := h.head.env[ph]
		if hv.t == nil && hv.poison == "" && !sameVal(hv, s.env[ph]) {
			// becomes poison
			j.unsup(ph.Pos(), "loop-carried pointer to different locations")
		}
	}
	_ = c
	for _, cd := range h.cands {
		t := j.candTerm(cd, s)
		if t == nil {
			continue
		}
		j.obls = append(j.obls, &Obl{name: "inv-step", guard: s.guard, goal: t, facts: s.facts, cand: cd, pos: loopPos(b)})
	}
}

// peel strips stores from t down to one of the stop terms, collecting the written refs.
func peel(t *Term, stops, hit map[*Term]bool, refs map[*Term]bool, seen map[*Term]bool) bool {
	for {
		if stops[t] {
			hit[t] = true
			return true
		}
		if seen[t] {
			return true
		}
		seen[t] = true
		switch t.op {
		case "store":
			refs[t.args[1]] = true
			t = t.args[0]
		case "ite":
			return peel(t.args[1], stops, hit, refs, seen) && peel(t.args[2], stops, hit, refs, seen)
		default:
			return false
		}
	}
}

// stable: the term only mentions constants created before seq.
func (j *Job) stable(t *Term, seq int) bool {
	ok := true
	j.c.walk(t, func(x *Term) {
		if strings.HasPrefix(x.op, "const:") && j.c.birth[x] > seq {
			ok = false
		}
	})
	return ok
}

// pruneRefs forgets locations a loop was once seen to write (under an earlier numbering of the fresh
// names) but did not write in the last pass; whatever it does write is found again at its back edges.
func (j *Job) pruneRefs() bool {
	chg := false
	for _, li := range j.loops {
		for k, rs := range li.refs {
			if li.general[k] || li.pruned[k] >= 3 {
				continue
			}
			var keep []*Term
			for _, r := range rs {
				if li.seen[k][r] {
					keep = append(keep, r)
				}
			}
			if len(keep) < len(rs) && len(keep) > 0 {
				if li.pruned == nil {
					li.pruned = map[string]int{}
				}
				li.pruned[k]++
				li.refs[k] = keep
				chg = true
			}
		}
		li.seen = nil
	}
	return chg
}

// ---------------------------------------------------------------- candidate invariants

type obs struct {
	name string
	get  func(st *State) *Term
	vary bool
}

func phiName(ph *ssa.Phi) string {
	n := ph.Comment
	if n == "" {
		n = ph.Name()
	}
	return n
}

func loopBlocks(h *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	in := map[*ssa.BasicBlock]bool{h: true}
	var rec func(b *ssa.BasicBlock)
	rec = func(b *ssa.BasicBlock) {
		if in[b] {
			return
		}
		in[b] = true
		for _, p := range b.Preds {
			rec(p)
		}
	}
	for _, p := range h.Preds {
		if h.Dominates(p) {
			rec(p)
		}
	}
	return in
}

func (j *Job) candidates(fr *frame, b *ssa.BasicBlock, h *hdrInfo, phis []*ssa.Phi, comps []string) []*Cand {
	c := j.c
	var out []*Cand
	li := h.li
	seen := map[string]bool{}
	add := func(key string, user bool, f func(st *State) *Term) {
		if li.dropped[key] || seen[key] {
			return
		}
		if j.hints != nil && !j.hints[li.key+"|"+key] {
			return
		}
		seen[key] = true
		out = append(out, &Cand{key: key, eval: f, li: li, user: user})
	}
	entry := h.entry
	blocks := loopBlocks(b)

	// observables
	var ints []obs
	for _, ph := range phis {
		ph := ph
		ev := entry.env[ph]
		if ev.t == nil {
			continue
		}
		g := func(st *State) *Term { return st.env[ph].t }
		nm := phiName(ph)
		switch {
		case ev.t.sort == SInt:
			if _, _, ok := intInfo(ph.Type()); ok {
				ints = append(ints, obs{nm, g, true})
			} else {
				add("nz:"+nm, false, func(st *State) *Term { return c.Not(c.Eq(g(st), c.Int(0))) })
				add("same:"+nm, false, func(st *State) *Term { return c.Eq(g(st), g(entry)) })
			}
		case ev.t.sort == SSlc:
			ints = append(ints, obs{"len(" + nm + ")", func(st *State) *Term { return c.Acc(g(st), 2) }, true})
			j.sliceCands(nm, g, entry, add)
		case ev.t.sort == SBool || ev.t.sort == SReal:
			add("same:"+nm, false, func(st *State) *Term { return c.Eq(g(st), g(entry)) })
		}
	}
	var cellIDs []int
	for id := range li.cells {
		if _, ok := entry.cells[id]; ok {
			cellIDs = append(cellIDs, id)
		}
	}
	sort.Ints(cellIDs)
	for _, id := range cellIDs {
		id := id
		ev := entry.cells[id]
		if ev.t == nil {
			continue
		}
		g := func(st *State) *Term { return st.cells[id].t }
		nm := fmt.Sprintf("cell%d", id)
		switch {
		case ev.t.sort == SInt:
			if ty := j.cellType[id]; ty != nil {
				if _, _, ok := intInfo(ty); ok {
					ints = append(ints, obs{nm, g, true})
				}
			}
		case ev.t.sort == SSlc:
			ints = append(ints, obs{"len(" + nm + ")", func(st *State) *Term { return c.Acc(g(st), 2) }, true})
			j.sliceCands(nm, g, entry, add)
		}
	}
	// heap slices at fixed refs: their length varies
	for _, m := range comps {
		m := m
		if !strings.HasPrefix(m, "F:") {
			continue
		}
		_, vs := arrParts(j.compSort[m])
		for ri, r := range li.refs[m] {
			r := r
			if li.general[m] {
				continue
			}
			get := func(st *State) *Term { return c.Select(j.get(st, m, j.compSort[m]), r) }
			nm := fmt.Sprintf("%s@%d", m, ri)
			switch vs {
			case SSlc:
				ints = append(ints, obs{"len(" + nm + ")", func(st *State) *Term { return c.Acc(get(st), 2) }, true})
				j.sliceCands(nm, get, entry, add)
				add("eqoff:"+nm, false, func(st *State) *Term { return c.Eq(c.Acc(get(st), 1), c.Int(0)) })
			case SInt:
				ints = append(ints, obs{nm, get, true})
			}
		}
	}
	// bounds: loop-invariant integers compared against or lengths indexed inside the loop
	var bounds []obs
	bseen := map[*Term]bool{}
	addBound := func(name string, t *Term) {
		if t != nil && t.sort == SInt && !bseen[t] && len(bounds) < 14 {
			bseen[t] = true
			bounds = append(bounds, obs{name, func(*State) *Term { return t }, false})
		}
	}
	for blk := range blocks {
		_ = blk
	}
	var bl []*ssa.BasicBlock
	for blk := range blocks {
		bl = append(bl, blk)
	}
	sort.Slice(bl, func(a, b int) bool { return bl[a].Index < bl[b].Index })
	outside := func(v ssa.Value) (*Term, bool) {
		if k, ok := v.(*ssa.Const); ok {
			if _, _, isI := intInfo(k.Type()); isI && k.Value != nil {
				return j.constant(k.Value, k.Type()), true
			}
			return nil, false
		}
		ins, ok := v.(ssa.Instruction)
		if ok && blocks[ins.Block()] {
			return nil, false
		}
		if x, has := entry.env[v]; has && x.t != nil {
			return x.t, true
		}
		return nil, false
	}
	for _, blk := range bl {
		for _, in := range blk.Instrs {
			switch x := in.(type) {
			case *ssa.BinOp:
				switch x.Op {
				case token.LSS, token.LEQ, token.GTR, token.GEQ, token.EQL, token.NEQ:
					for _, o := range []ssa.Value{x.X, x.Y} {
						if t, ok := outside(o); ok && t.sort == SInt {
							addBound(o.Name(), t)
						}
					}
				}
			case *ssa.IndexAddr:
				if t, ok := outside(x.X); ok && t.sort == SSlc {
					addBound("len("+x.X.Name()+")", c.Acc(t, 2))
				}
			case *ssa.Call:
				if bi, ok := x.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "len" || bi.Name() == "cap") {
					if t, ok := outside(x.Call.Args[0]); ok && t.sort == SSlc {
						addBound("len("+x.Call.Args[0].Name()+")", c.Acc(t, 2))
					}
				}
			}
		}
	}
	for _, p := range j.topParams {
		if p.v.t == nil {
			continue
		}
		if p.v.t.sort == SSlc {
			addBound("len(param)", c.Acc(p.v.t, 2))
		} else if p.v.t.sort == SInt && p.typ != nil {
			if _, _, ok := intInfo(p.typ); ok {
				addBound("param", p.v.t)
			}
		}
	}
	for _, x := range ints {
		x := x
		x0 := x.get(entry)
		add("ge0:"+x.name, false, func(st *State) *Term { return c.Le(c.Int(0), x.get(st)) })
		add("ge-1:"+x.name, false, func(st *State) *Term { return c.Le(c.Int(-1), x.get(st)) })
		add("geE:"+x.name, false, func(st *State) *Term { return c.Le(x0, x.get(st)) })
		add("leE:"+x.name, false, func(st *State) *Term { return c.Le(x.get(st), x0) })
		for _, bd := range bounds {
			bt := bd.get(nil)
			add(fmt.Sprintf("le:%s:%s", x.name, bd.name), false, func(st *State) *Term { return c.Le(x.get(st), bt) })
			add(fmt.Sprintf("lt:%s:%s", x.name, bd.name), false, func(st *State) *Term { return c.Lt(x.get(st), bt) })
			if bt.n == nil {
				add(fmt.Sprintf("ge:%s:%s", x.name, bd.name), false, func(st *State) *Term { return c.Le(bt, x.get(st)) })
			}
		}
		for _, y := range ints {
			y := y
			if x.name == y.name {
				continue
			}
			y0 := y.get(entry)
			add(fmt.Sprintf("le:%s:%s", x.name, y.name), false, func(st *State) *Term { return c.Le(x.get(st), y.get(st)) })
			if x.name < y.name {
				add(fmt.Sprintf("diff:%s:%s", x.name, y.name), false, func(st *State) *Term { return c.Eq(c.Sub(x.get(st), y.get(st)), c.Sub(x0, y0)) })
				add(fmt.Sprintf("sum:%s:%s", x.name, y.name), false, func(st *State) *Term { return c.Eq(c.Add(x.get(st), y.get(st)), c.Add(x0, y0)) })
			}
		}
	}
	// frames for generally havocked components
	for _, m := range comps {
		m := m
		if isLockComp(m) {
			add("locks:"+m, true, func(st *State) *Term { return c.Eq(j.get(st, m, j.compSort[m]), j.get(entry, m, j.compSort[m])) })
		}
		if !li.general[m] || !strings.HasPrefix(j.compSort[m], "(Array Int") || m[0] == 'G' {
			continue
		}
		mk := func(bound *Term, excl []*Term, base *State) func(st *State) *Term {
			return func(st *State) *Term {
				r := c.BoundVar("r", SInt)
				a := j.get(st, m, j.compSort[m])
				e := j.get(base, m, j.compSort[m])
				if a == e {
					return c.True
				}
				cond := []*Term{c.Lt(r, bound)}
				for _, x := range excl {
					cond = append(cond, c.Not(c.Eq(r, x)))
				}
				return c.Forall([]*Term{r}, c.Imp(c.And(cond...), c.Eq(c.Select(a, r), c.Select(e, r))), []*Term{c.Select(a, r)})
			}
		}
		add("frameL:"+m, true, mk(entry.alloc, nil, entry))
		add("frame0:"+m, true, mk(j.alloc0, nil, entry))
		if ex := j.topMods[m]; len(ex) > 0 {
			add("frame0x:"+m, true, mk(j.alloc0, ex, entry))
			add("frameLx:"+m, true, mk(entry.alloc, ex, entry))
		}
		// exclude the arrays of loop-carried slices as they were on entry
		if m[0] == 'A' {
			var ex []*Term
			for _, ph := range phis {
				if v := entry.env[ph]; v.t != nil && v.t.sort == SSlc {
					ex = append(ex, c.Acc(v.t, 0))
				}
			}
			for _, id := range cellIDs {
				if v := entry.cells[id]; v.t != nil && v.t.sort == SSlc {
					ex = append(ex, c.Acc(v.t, 0))
				}
			}
			if len(ex) > 0 {
				add("frameP:"+m, true, mk(entry.alloc, ex, entry))
			}
		}
		_ = mk
	}
	// user templates
	var tmpl []*Clause
	tmpl = append(tmpl, j.spec.invs...)
	tmpl = append(tmpl, j.p.specs.pkgInvs[j.spec.pkg]...)
	for ti, cl := range tmpl {
		j.instTemplate(fr, b, h, phis, cellIDs, cl, ti, add, j.topVars, j.initState)
	}
	if !fr.top {
		// a helper executed in place: its own templates, or those of contracts whose function is gone
		for si, sp := range j.p.adoptable(fr.fn) {
			vars := map[string]SVal{}
			for i, nm := range sp.params {
				if i < len(fr.args) {
					vars[nm] = SVal{v: fr.args[i], typ: fr.fn.Params[i].Type()}
				}
			}
			for ti, cl := range sp.invs {
				j.instTemplate(fr, b, h, phis, cellIDs, cl, 1000*(si+1)+ti, add, vars, fr.entry)
			}
		}
	}
	return out
}

// adoptable: contracts whose loop templates are worth trying on a function executed in place.
func (p *Program) adoptable(fn *ssa.Function) []*FuncSpec {
	if sp := p.specs.funcs[fnKey(fn)]; sp != nil {
		return []*FuncSpec{sp}
	}
	var out []*FuncSpec
	if fn.Pkg == nil {
		return nil
	}
	for _, k := range p.specs.orphans(p) {
		sp := p.specs.funcs[k]
		if sp.pkg == pname(fn.Pkg.Pkg) && len(sp.params) <= len(fn.Params) && len(sp.invs) > 0 {
			out = append(out, sp)
		}
	}
	return out
}

// orphans: contracts without a function in the current tree.
func (s *Specs) orphans(p *Program) []string {
	p.orphOnce.Do(func() {
		for k, sp := range s.funcs {
			if sp.extern || p.fns[k] != nil || len(p.stored[k]) > 0 {
				continue
			}
			p.orph = append(p.orph, k)
		}
		sort.Strings(p.orph)
	})
	return p.orph
}

func (j *Job) sliceCands(nm string, g func(*State) *Term, entry *State, add func(string, bool, func(*State) *Term)) {
	c := j.c
	add("off:"+nm, false, func(st *State) *Term { return c.Eq(c.Acc(g(st), 1), c.Acc(g(entry), 1)) })
	add("arr:"+nm, false, func(st *State) *Term { return c.Eq(c.Acc(g(st), 0), c.Acc(g(entry), 0)) })
	add("own:"+nm, false, func(st *State) *Term {
		return c.Or(c.Eq(c.Acc(g(st), 0), c.Int(0)), c.Le(j.alloc0, c.Acc(g(st), 0)))
	})
	add("ownE:"+nm, false, func(st *State) *Term {
		return c.Or(c.Eq(c.Acc(g(st), 0), c.Acc(g(entry), 0)), c.Le(entry.alloc, c.Acc(g(st), 0)))
	})
	add("cap:"+nm, false, func(st *State) *Term { return c.Eq(c.Acc(g(st), 3), c.Acc(g(entry), 3)) })
}

// instTemplate instantiates a loop template over the values live at the header.
func (j *Job) instTemplate(fr *frame, b *ssa.BasicBlock, h *hdrInfo, phis []*ssa.Phi, cells []int, cl *Clause, ti int, add func(string, bool, func(*State) *Term), tv map[string]SVal, oldSt *State) {
	type choice struct {
		name  string
		get   func(st *State) SVal
		extra bool
	}
	base := &SpecEnv{j: j, pkg: j.p.pkgByName(j.spec.pkg)}
	var opts [][]choice
	for _, m := range cl.meta {
		want := m.typ
		anyVal := false
		if strings.HasPrefix(want, "~") {
			anyVal = true
			want = strings.TrimSpace(want[1:])
		}
		match := func(t types.Type) bool {
			return typeKey(t) == want || typeKey(t.Underlying()) == want || strings.HasSuffix(typeKey(t), "."+want) || (strings.HasPrefix(want, "*") && strings.HasPrefix(typeKey(t), "*") && strings.HasSuffix(typeKey(t), "."+want[1:])) || wildcard(want, typeKey(t))
		}
		var cs []choice
		for _, ph := range phis {
			ph := ph
			if !match(ph.Type()) {
				continue
			}
			cs = append(cs, choice{phiName(ph), func(st *State) SVal { return SVal{v: st.env[ph], typ: ph.Type()} }, false})
			if want == "int" {
				cs = append(cs, choice{phiName(ph) + "+1", func(st *State) SVal {
					return SVal{v: Val{t: j.c.Add(st.env[ph].t, j.c.Int(1))}, typ: ph.Type()}
				}, false})
				cs = append(cs, choice{phiName(ph) + "-1", func(st *State) SVal {
					return SVal{v: Val{t: j.c.Sub(st.env[ph].t, j.c.Int(1))}, typ: ph.Type()}
				}, true})
			}
		}
		if want == "int" {
			// a slice that grows counts as well as a variable does
			for _, ph := range phis {
				ph := ph
				if v := h.entry.env[ph]; v.t == nil || v.t.sort != SSlc {
					continue
				}
				cs = append(cs, choice{"len:" + phiName(ph), func(st *State) SVal {
					return SVal{v: Val{t: j.c.Acc(st.env[ph].t, 2)}, typ: types.Typ[types.Int]}
				}, true})
			}
			for _, id := range cells {
				id := id
				if v := h.entry.cells[id]; v.t == nil || v.t.sort != SSlc {
					continue
				}
				cs = append(cs, choice{fmt.Sprintf("len:cell%d", id), func(st *State) SVal {
					return SVal{v: Val{t: j.c.Acc(st.cells[id].t, 2)}, typ: types.Typ[types.Int]}
				}, true})
			}
		}
		for _, id := range cells {
			id := id
			ty := j.cellType[id]
			if ty == nil || !match(ty) {
				continue
			}
			cs = append(cs, choice{fmt.Sprintf("cell%d", id), func(st *State) SVal { return SVal{v: st.cells[id], typ: ty} }, false})
		}
		if anyVal {
			// every dominating value of this type in the frame
			var vs []ssa.Value
			for v := range h.entry.env {
				if v == marker0 {
					continue
				}
				vs = append(vs, v)
			}
			sort.Slice(vs, func(a, b int) bool { return vs[a].Name() < vs[b].Name() })
			seenT := map[*Term]bool{}
			for _, v := range vs {
				v := v
				if _, isPhi := v.(*ssa.Phi); isPhi && v.(*ssa.Phi).Block() == b {
					continue
				}
				if v.Type() == nil || !match(v.Type()) {
					continue
				}
				ev := h.entry.env[v]
				if ev.t == nil || seenT[ev.t] {
					continue
				}
				seenT[ev.t] = true
				cs = append(cs, choice{v.Name(), func(st *State) SVal { return SVal{v: ev, typ: v.Type()} }, false})
			}
			if !fr.top {
				// in a helper executed in place: the values of its caller as well
				var pv []ssa.Value
				for v := range fr.entry.env {
					if v != marker0 {
						pv = append(pv, v)
					}
				}
				sort.Slice(pv, func(a, b int) bool { return pv[a].Name() < pv[b].Name() })
				for _, v := range pv {
					v := v
					if v.Type() == nil || !match(v.Type()) {
						continue
					}
					ev := fr.entry.env[v]
					if ev.t == nil || seenT[ev.t] {
						continue
					}
					seenT[ev.t] = true
					cs = append(cs, choice{"^" + v.Name(), func(st *State) SVal { return SVal{v: ev, typ: v.Type()} }, true})
				}
			}
		}
		if len(cs) == 0 {
			return
		}
		opts = append(opts, cs)
	}
	n := 0
	var rec func(i int, pick []choice, extra bool)
	rec = func(i int, pick []choice, extra bool) {
		if n > 300 {
			return
		}
		if i == len(opts) {
			if extra {
				// the second round is for the combinations the first one left out
				has := false
				for _, p := range pick {
					has = has || p.extra
				}
				if !has {
					return
				}
			}
			n++
			names := make([]string, len(pick))
			for k, p := range pick {
				names[k] = p.name
			}
			pk := append([]choice{}, pick...)
			key := fmt.Sprintf("T%d:%s", ti, strings.Join(names, ","))
			entry := h.entry
			add(key, true, func(st *State) *Term {
				vars := map[string]SVal{}
				for k, v := range tv {
					vars[k] = v
				}
				for k, p := range pk {
					vars[cl.meta[k].name] = p.get(st)
				}
				env := &SpecEnv{j: j, st: st, old: oldSt, vars: vars, pkg: base.pkg}
				env.vars["$entry"] = SVal{}
				_ = entry
				return env.boolean(cl)
			})
			return
		}
		for _, o := range opts[i] {
			if o.extra && !extra {
				continue
			}
			rec(i+1, append(pick, o), extra)
		}
	}
	rec(0, nil, false)
	n = 0
	rec(0, nil, true)
}

func wildcard(pat, s string) bool {
	if !strings.Contains(pat, "?") {
		return false
	}
	parts := strings.Split(pat, "?")
	if !strings.HasPrefix(s, parts[0]) {
		return false
	}
	s = s[len(parts[0]):]
	for _, p := range parts[1:] {
		if p == "" {
			return true
		}
		k := strings.Index(s, p)
		if k < 0 {
			return false
		}
		s = s[k+len(p):]
	}
	return s == ""
}
