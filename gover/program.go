package main

import (
	"encoding/json"
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Program struct {
	repo     string
	prog     *ssa.Program
	fset     *token.FileSet
	specs    *Specs
	pkgs     map[string]*types.Package
	fns      map[string]*ssa.Function
	acqs     map[*ssa.Function][]acq
	stored   map[string][]*ssa.Function
	typeMemo map[string]types.Type
	mu       sync.Mutex
	hints    map[string]map[string]bool
	noHints  bool
	adopted  map[string]string // missing contract key -> adopting function key
	spkgs    []*ssa.Package
	all      []*ssa.Function
	callers  map[*ssa.Function][]*ssa.CallCommon
	orphOnce sync.Once
	orph     []string
}

func LoadProgram(repo string, specs *Specs, overlay string) (*Program, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedTypes |
			packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedExportFile,
		Dir: repo,
		Env: os.Environ(),
	}
	pk, err := packages.Load(cfg, "./pkg/...", "./adapters/...")
	if err != nil {
		return nil, err
	}
	for _, p := range pk {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("%s: %v", p.PkgPath, e)
		}
	}
	prog, spkgs := ssautil.Packages(pk, ssa.InstantiateGenerics|ssa.GlobalDebug)
	prog.Build()
	p := &Program{repo: repo, prog: prog, fset: prog.Fset, specs: specs, pkgs: map[string]*types.Package{}, fns: map[string]*ssa.Function{},
		stored: map[string][]*ssa.Function{}, typeMemo: map[string]types.Type{}, adopted: map[string]string{}}
	seen := map[*types.Package]bool{}
	var addPkg func(t *types.Package)
	addPkg = func(t *types.Package) {
		if seen[t] {
			return
		}
		seen[t] = true
		if _, ok := p.pkgs[pname(t)]; !ok {
			p.pkgs[pname(t)] = t
		}
		for _, i := range t.Imports() {
			addPkg(i)
		}
	}
	for _, sp := range spkgs {
		if sp != nil {
			p.pkgs[sp.Pkg.Name()] = sp.Pkg
			p.spkgs = append(p.spkgs, sp)
		}
	}
	for _, sp := range p.spkgs {
		addPkg(sp.Pkg)
	}
	all := ssautil.AllFunctions(prog)
	var fl []*ssa.Function
	for f := range all {
		fl = append(fl, f)
	}
	// AllFunctions only reports reachable generic bodies; add declared methods and functions explicitly
	for _, sp := range p.spkgs {
		for _, m := range sp.Members {
			if f, ok := m.(*ssa.Function); ok {
				fl = append(fl, f)
			}
			if t, ok := m.(*ssa.Type); ok {
				if n, ok := t.Type().(*types.Named); ok {
					for i := 0; i < n.NumMethods(); i++ {
						if f := prog.FuncValue(n.Method(i)); f != nil {
							fl = append(fl, f)
						}
					}
				}
			}
		}
	}
	for i := 0; i < len(fl); i++ {
		fl = append(fl, fl[i].AnonFuncs...)
		if i > 200000 {
			break
		}
	}
	for _, f := range fl {
		if len(f.Blocks) == 0 || f.Synthetic != "" && !strings.HasPrefix(f.Synthetic, "instance") {
			continue
		}
		k := fnKey(f)
		old, ok := p.fns[k]
		// prefer the generic origin
		if !ok || (old.Origin() != nil && f.Origin() == nil) {
			p.fns[k] = f
		}
	}
	done := map[*ssa.Function]bool{}
	for _, f := range fl {
		if !done[f] {
			done[f] = true
			p.all = append(p.all, f)
		}
	}
	done = map[*ssa.Function]bool{}
	for _, f := range fl {
		if done[f] {
			continue
		}
		done[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				if _, isF := s.Val.Type().Underlying().(*types.Signature); !isF {
					continue
				}
				key := ""
				switch a := s.Addr.(type) {
				case *ssa.Global:
					key = pname(a.Pkg.Pkg) + "." + a.Name()
				case *ssa.FieldAddr:
					if n := namedOf(a.X.Type()); n != nil && n.Obj().Pkg() != nil {
						key = pname(n.Obj().Pkg()) + "." + n.Obj().Name() + "." + n.Underlying().(*types.Struct).Field(a.Field).Name()
					}
				}
				if key == "" {
					continue
				}
				fns, ok := p.fnsOf(s.Val, map[ssa.Value]bool{})
				if !ok {
					p.stored[key+"?"] = append(p.stored[key+"?"], f)
				}
				for _, fn := range fns {
					dup := false
					for _, g := range p.stored[key] {
						if g == fn {
							dup = true
						}
					}
					if !dup {
						p.stored[key] = append(p.stored[key], fn)
					}
				}
			}
		}
	}
	for k := range p.stored {
		sort.Slice(p.stored[k], func(a, b int) bool { return p.stored[k][a].String() < p.stored[k][b].String() })
	}
	return p, nil
}

func fnOf(v ssa.Value) *ssa.Function {
	switch x := v.(type) {
	case *ssa.Function:
		return x
	case *ssa.MakeClosure:
		if len(x.Bindings) == 0 {
			return x.Fn.(*ssa.Function)
		}
	case *ssa.ChangeType:
		return fnOf(x.X)
	}
	return nil
}

// fnsOf: the functions a value can denote (closed world), following parameters to their callers.
func (p *Program) fnsOf(v ssa.Value, seen map[ssa.Value]bool) ([]*ssa.Function, bool) {
	if seen[v] {
		return nil, true
	}
	seen[v] = true
	if f := fnOf(v); f != nil {
		return []*ssa.Function{f}, true
	}
	switch x := v.(type) {
	case *ssa.Const:
		return nil, true
	case *ssa.Phi:
		var out []*ssa.Function
		for _, e := range x.Edges {
			fs, ok := p.fnsOf(e, seen)
			if !ok {
				return nil, false
			}
			out = append(out, fs...)
		}
		return out, true
	case *ssa.Parameter:
		if p.callers == nil {
			p.callers = map[*ssa.Function][]*ssa.CallCommon{}
			for _, f := range p.all {
				for _, b := range f.Blocks {
					for _, in := range b.Instrs {
						if c, ok := in.(ssa.CallInstruction); ok {
							if g := c.Common().StaticCallee(); g != nil {
								p.callers[g] = append(p.callers[g], c.Common())
							}
						}
					}
				}
			}
		}
		idx := -1
		for i, q := range x.Parent().Params {
			if q == x {
				idx = i
			}
		}
		cs := p.callers[x.Parent()]
		if len(cs) == 0 || idx < 0 {
			return nil, false
		}
		var out []*ssa.Function
		for _, c := range cs {
			fs, ok := p.fnsOf(c.Args[idx], seen)
			if !ok {
				return nil, false
			}
			out = append(out, fs...)
		}
		return out, true
	}
	return nil, false
}

func (p *Program) storedFns(key string) []*ssa.Function {
	if len(p.stored[key+"?"]) > 0 {
		return nil
	}
	return p.stored[key]
}

func (p *Program) pkgByName(n string) *types.Package { return p.pkgs[n] }
func (p *Program) inRepo(f *ssa.Function) bool        { return len(f.Blocks) > 0 }
func (p *Program) pos(q token.Pos) string {
	if !q.IsValid() {
		return ""
	}
	x := p.fset.Position(q)
	return strings.TrimPrefix(x.Filename, p.repo+"/") + ":" + fmt.Sprint(x.Line)
}

func (p *Program) specFor(key string) *FuncSpec { return p.specs.funcs[key] }

func (j *Job) fnNum(f *ssa.Function) int {
	n, ok := j.fnNums[f]
	if !ok {
		n = len(j.fnNums) + 1
		j.fnNums[f] = n
	}
	return n
}

func (j *Job) typeNum(t types.Type) int {
	k := typeKey(t)
	n, ok := j.typeNums[k]
	if !ok {
		n = len(j.typeNums) + 1
		j.typeNums[k] = n
	}
	return n
}

// loadHints reads which candidate invariants survived when the hints were recorded.
func (p *Program) loadHints(file string) {
	b, err := os.ReadFile(file)
	if err != nil {
		return
	}
	m := map[string][]string{}
	if json.Unmarshal(b, &m) != nil {
		return
	}
	p.hints = map[string]map[string]bool{}
	for k, l := range m {
		h := map[string]bool{}
		for _, x := range l {
			h[x] = true
		}
		p.hints[k] = h
	}
}

// saveHints records the surviving candidates of proved functions, keeping other entries.
func saveHints(file string, res []*JobResult) error {
	m := map[string][]string{}
	if b, err := os.ReadFile(file); err == nil {
		json.Unmarshal(b, &m)
	}
	for _, r := range res {
		if r.Status != "proved" || r.Loops == 0 {
			delete(m, r.Func)
			continue
		}
		seen := map[string]bool{}
		l := []string{}
		for _, x := range r.InvKept {
			if !seen[x] {
				seen[x] = true
				l = append(l, x)
			}
		}
		sort.Strings(l)
		m[r.Func] = l
	}
	b, _ := json.MarshalIndent(m, "", " ")
	return os.WriteFile(file, append(b, '\n'), 0o644)
}
