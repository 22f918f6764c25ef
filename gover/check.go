package main

import (
	"bufio"
	"bytes"
	"context"
	"crypto/sha1"
	"encoding/hex"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
	"unicode"
)

// The check driver: verifies every contract a property rests on against the current tree, runs the
// property's replay/stand-in harness against the real code, decides, and writes the evidence file.

type harnessRec struct {
	Kind   string          `json:"kind"`
	Test   string          `json:"test,omitempty"`
	Key    string          `json:"key,omitempty"`
	Input  json.RawMessage `json:"input,omitempty"`
	Detail string          `json:"detail,omitempty"`
	Evals  int             `json:"evaluations,omitempty"`
	Dist   int             `json:"distinct,omitempty"`
	Bound  string          `json:"bound,omitempty"`
	Sample json.RawMessage `json:"sample,omitempty"`
	Pkg    string          `json:"pkg,omitempty"`
}

type harnessRun struct {
	Pkg    string
	Built  bool
	Recs   []harnessRec
	Output string
	Err    string
	Wall   float64
	Cmd    string
}

type finding struct{ prop, key, text string }

func loadFindings(f string) []finding {
	var out []finding
	b, err := os.ReadFile(f)
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "KNOWN-FINDING:") {
			continue
		}
		l = strings.TrimSpace(strings.TrimPrefix(l, "KNOWN-FINDING:"))
		var fd finding
		for _, w := range strings.Fields(l) {
			if strings.HasPrefix(w, "property=") {
				fd.prop = w[9:]
			} else if strings.HasPrefix(w, "key=") {
				fd.key = w[4:]
			}
		}
		fd.text = l
		out = append(out, fd)
	}
	return out
}

// PropInfo: contracts/props.json.
type PropInfo struct {
	Level       string   `json:"level"`
	Assumptions []string `json:"assumptions"`
	OutOfReach  []string `json:"out_of_reach"`
}

func clauseHas(cl *Clause, prop string) bool {
	for _, p := range cl.props {
		if p == prop {
			return true
		}
	}
	return false
}

func (s *FuncSpec) ofProp(prop string) bool {
	for _, p := range s.props {
		if p == prop {
			return true
		}
	}
	for _, cl := range s.ensures {
		if clauseHas(cl, prop) {
			return true
		}
	}
	return false
}

// alsoFor: the function is checked for the obligations carrying the property's label (preconditions of what
// it calls), its other obligations belong to other properties.
func (s *FuncSpec) alsoFor(prop string) bool {
	for _, q := range strings.Split(s.opts["also"], ",") {
		if q == prop {
			return true
		}
	}
	return false
}

func unexported(key string) bool {
	if i := strings.Index(key, "<-"); i >= 0 {
		key = key[:i]
	}
	i := strings.LastIndex(key, ".")
	n := key[i+1:]
	if n == "" {
		return false
	}
	return unicode.IsLower(rune(n[0]))
}

func (p *Program) verifyKeys(keys []string, tn Tuning) []*JobResult {
	res := make([]*JobResult, len(keys))
	var wg sync.WaitGroup
	sem := make(chan struct{}, 16)
	for i, k := range keys {
		f := p.fns[k]
		if f == nil {
			res[i] = &JobResult{Func: k, Status: "missing", Reason: "no such function in the current tree"}
			continue
		}
		wg.Add(1)
		go func(i int, k string) {
			defer wg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			j := p.newJob(f, p.specFor(k))
			res[i] = j.verify(tn)
		}(i, k)
	}
	wg.Wait()
	return res
}

// closure verifies the contracts of prop and, transitively, every contract used at a call site.
// Results in prev of functions that do not touch a contract in changed are kept.
func (p *Program) closure(prop string, tn Tuning, prev map[string]*JobResult, changed []string) map[string]*JobResult {
	out := map[string]*JobResult{}
	isChanged := map[string]bool{}
	for _, k := range changed {
		isChanged[k] = true
	}
	keep := func(k string) *JobResult {
		r := prev[k]
		if r == nil || r.Status != "proved" || isChanged[k] {
			return nil
		}
		for _, u := range append(append([]string{}, r.UsedSpecs...), r.Reached...) {
			if isChanged[u] {
				return nil
			}
		}
		return r
	}
	var todo []string
	for k, s := range p.specs.funcs {
		if s.trusted || s.inline || s.ignore || s.extern || strings.Contains(k, "<-") {
			continue
		}
		if s.ofProp(prop) || s.alsoFor(prop) {
			todo = append(todo, k)
		}
	}
	seen := map[string]bool{}
	for len(todo) > 0 {
		sort.Strings(todo)
		var ks []string
		for _, k := range todo {
			if !seen[k] {
				seen[k] = true
				ks = append(ks, k)
			}
		}
		ks = p.expandFnValues(ks)
		todo = nil
		var rs []*JobResult
		var run []string
		for _, k := range ks {
			if r := keep(k); r != nil {
				rs = append(rs, r)
			} else {
				run = append(run, k)
			}
		}
		for _, r := range append(rs, p.verifyKeys(run, tn)...) {
			out[r.Func] = r
			for _, u := range r.UsedSpecs {
				sp := p.specs.funcs[u]
				if sp == nil || sp.trusted || sp.ignore || sp.extern || seen[u] {
					continue
				}
				todo = append(todo, u)
			}
		}
	}
	return out
}

func checkMain(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	repo := fs.String("repo", "/repo", "")
	verif := fs.String("verif", "/verif", "")
	noHarness := fs.Bool("noharness", false, "")
	fs.Parse(args)
	t0 := time.Now()
	seed := 1
	if s, err := strconv.Atoi(os.Getenv("VERIF_SEED")); err == nil {
		seed = s
	}
	limit := 600 * time.Second
	tn := Tuning{candMS: 700, oblMS: 10000, maxPass: 60}
	if *tier == "thorough" {
		limit = 3000 * time.Second
		tn = Tuning{candMS: 2000, oblMS: 60000, maxPass: 60}
	}
	deadline = t0.Add(limit)

	info := map[string]*PropInfo{}
	if b, err := os.ReadFile(filepath.Join(*verif, "contracts/props.json")); err == nil {
		if err := json.Unmarshal(b, &info); err != nil {
			fmt.Println("contracts/props.json:", err)
			return 2
		}
	}
	pi := info[*prop]
	if pi == nil {
		pi = &PropInfo{Level: "proof"}
	}

	specs, err := LoadSpecs(filepath.Join(*verif, "contracts"))
	if err != nil {
		fmt.Println("contracts:", err)
		return 2
	}
	// the harness is compiled and run next to the proofs
	var hr []*harnessRun
	hdone := make(chan struct{})
	go func() {
		defer close(hdone)
		if !*noHarness {
			hr = runHarness(*verif, *repo, *prop, *tier, seed, deadline)
		}
	}()

	p, err := LoadProgram(*repo, specs, "")
	if err != nil {
		fmt.Println("cannot load the tree:", err)
		<-hdone
		return 2
	}
	p.noHints = *tier == "thorough"
	p.loadHints(filepath.Join(*verif, "contracts/hints.json"))
	loadS := time.Since(t0).Seconds()
	res := p.closure(*prop, tn, nil, nil)
	notes := []string{}
	bad := func(r *JobResult) bool { return r.Status == "failed" || r.Status == "unsupported" }
	// round 2: contracts of unexported helpers that no longer hold (a refactored helper) are set aside
	// and the helpers verified in place, inside each caller
	for round := 0; round < 2; round++ {
		var stale []string
		for k, r := range res {
			if bad(r) && unexported(k) && p.specs.funcs[k] != nil && p.specs.funcs[k].opts["keep"] == "" {
				stale = append(stale, k)
			}
		}
		if len(stale) == 0 {
			break
		}
		sort.Strings(stale)
		saved := map[string]*FuncSpec{}
		for _, k := range stale {
			saved[k] = p.specs.funcs[k]
			cp := *saved[k]
			cp.inline = true
			p.specs.funcs[k] = &cp
		}
		res2 := p.closure(*prop, tn, res, stale)
		worse := false
		for k, r := range res2 {
			if bad(r) && (res[k] == nil || !bad(res[k])) {
				worse = true
			}
		}
		if worse || !p.calledFrom(stale, res2) {
			for k, s := range saved {
				p.specs.funcs[k] = s
			}
			break
		}
		for _, k := range stale {
			notes = append(notes, "contract of "+k+" does not fit the current code and was set aside; the helper is verified in place inside every verified caller")
		}
		res = res2
	}
	var keys []string
	for k := range res {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	pkgsUsed := map[string]bool{}
	for _, k := range keys {
		if sp := p.specs.funcs[k]; sp != nil {
			pkgsUsed[sp.pkg] = true
		}
	}
	var lemmas []*JobResult
	for _, l := range specs.lemmas {
		if pkgsUsed[l.pkg] {
			lemmas = append(lemmas, p.verifyLemma(l, tn))
		}
	}
	<-hdone
	// an obligation that only timed out says nothing: before reporting it, and unless the harness has an
	// input that fails, the function is tried once more with more time
	known := loadFindings(filepath.Join(*verif, "known-findings.txt"))
	isKnown := func(key string) *finding {
		for i := range known {
			if known[i].prop == *prop && known[i].key == key {
				return &known[i]
			}
		}
		return nil
	}
	hasInput := false
	for _, h := range hr {
		for _, r := range h.Recs {
			if r.Kind == "fail" && isKnown(r.Key) == nil {
				hasInput = true
			}
		}
	}
	if !hasInput && *tier != "thorough" {
		var again []string
		for _, k := range keys {
			if res[k].Status == "failed" && p.fns[k] != nil {
				again = append(again, k)
			}
		}
		if len(again) > 0 && len(again) <= 4 {
			t3 := tn
			t3.candMS *= 6
			t3.oblMS *= 2
			t3.stop = t0.Add(limit - 150*time.Second)
			for i, r := range p.verifyKeys(again, t3) {
				if r.Status == "proved" {
					res[again[i]] = r
				}
			}
		}
	}
	proofS := time.Since(t0).Seconds()

	// ---- tally
	type ob struct {
		fn  string
		rep *OblReport
		own bool
	}
	total, ok := 0, 0
	by := map[string]int{}
	var failed []ob
	var unsup []map[string]string
	var funcs []map[string]any
	externs, trusted, nset := map[string]bool{}, map[string]bool{}, map[string]bool{}
	add := func(r *JobResult, own bool) {
		n, d := 0, 0
		for _, o := range r.Obls {
			n++
			if o.Result == "proved" {
				d++
				by[o.By]++
			} else {
				mine := own
				if len(o.Props) > 0 {
					mine = false
					for _, q := range o.Props {
						if q == *prop {
							mine = true
						}
					}
				}
				failed = append(failed, ob{r.Func, o, mine})
			}
		}
		total += n
		ok += d
		if r.Status == "unsupported" || r.Status == "missing" {
			unsup = append(unsup, map[string]string{"function": r.Func, "status": r.Status, "reason": r.Reason})
		}
		funcs = append(funcs, map[string]any{"function": r.Func, "at": r.Pos, "status": r.Status, "obligations": n, "discharged": d, "loops": r.Loops, "loop_invariants": r.Invs, "own": own, "executed_in_place": r.Reached})
		for _, e := range r.Externs {
			externs[e] = true
		}
		for _, e := range r.Notes {
			nset[e] = true
		}
		for _, u := range r.UsedSpecs {
			if sp := p.specs.funcs[u]; sp != nil && (sp.trusted || sp.ignore || sp.extern) {
				trusted[u] = true
			}
			if sp := p.specs.funcs[u]; sp != nil && !sp.trusted {
				for _, cl := range sp.ensures {
					if cl.assumed {
						trusted[u+labelOf(cl)+" (assumed clause)"] = true
					}
				}
				for _, cl := range sp.requires {
					if cl.assumed {
						trusted[u+labelOf(cl)+" (precondition presumed, not checked at callers)"] = true
					}
				}
			}
		}
	}
	for _, k := range keys {
		sp := p.specs.funcs[k]
		add(res[k], sp != nil && sp.ofProp(*prop))
	}
	for _, r := range lemmas {
		add(r, false)
	}
	os.MkdirAll(filepath.Join(*verif, "replays"), 0o755)
	viol := 0
	printedKnown := map[string]bool{}
	seenKey := map[string]bool{}
	evals, dist := 0, 0
	var bounded []map[string]any
	var samples []json.RawMessage
	for _, h := range hr {
		ran := map[string]any{"package": h.Pkg, "ran": h.Built, "wall_s": h.Wall, "cmd": h.Cmd}
		if h.Err != "" {
			ran["error"] = h.Err
		}
		var tests []map[string]any
		for _, r := range h.Recs {
			switch r.Kind {
			case "stat":
				evals += r.Evals
				dist += r.Dist
				tests = append(tests, map[string]any{"test": r.Test, "evaluations": r.Evals, "distinct_nontrivial": r.Dist, "bound": r.Bound})
				if len(r.Sample) > 0 {
					samples = append(samples, r.Sample)
				}
			case "fail":
				if f := isKnown(r.Key); f != nil {
					if !printedKnown[r.Key] {
						printedKnown[r.Key] = true
						fmt.Println("KNOWN-FINDING: " + f.text)
					}
					continue
				}
				if seenKey[r.Key] {
					continue
				}
				seenKey[r.Key] = true
				viol++
				if viol > 5 {
					continue
				}
				var fo []map[string]any
				for _, o := range failed {
					fo = append(fo, map[string]any{"function": o.fn, "obligation": o.rep.Name, "at": o.rep.At, "clause": o.rep.Src, "result": o.rep.Result})
				}
				path := writeReplay(*verif, *prop, r.Key, map[string]any{"property": *prop, "kind": "failing input replayed against the real code", "package": h.Pkg, "test": r.Test, "key": r.Key, "input": r.Input, "detail": r.Detail, "failed_obligations": fo, "seed": seed, "tier": *tier, "rerun": h.Cmd})
				fmt.Printf("failing input (%s): %s\n", r.Test, r.Detail)
				fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, path)
			}
		}
		ran["tests"] = tests
		bounded = append(bounded, ran)
	}
	ownFailed := 0
	var names []string
	for _, o := range failed {
		names = append(names, o.fn+": "+o.rep.Name)
		if o.own {
			ownFailed++
		}
		fmt.Printf("undischarged: %s: %s at %s  %s [%s]\n", o.fn, o.rep.Name, o.rep.At, o.rep.Src, o.rep.Result)
	}
	for _, u := range unsup {
		fmt.Printf("out of the verifier's reach: %s (%s)\n", u["function"], u["reason"])
	}
	if viol == 0 && ownFailed > 0 {
		var fo []map[string]any
		for _, o := range failed {
			if o.own {
				m := o.rep.Model
				if len(m) > 4000 {
					m = m[:4000]
				}
				fo = append(fo, map[string]any{"function": o.fn, "obligation": o.rep.Name, "at": o.rep.At, "clause": o.rep.Src, "where": o.rep.Where, "result": o.rep.Result, "backend": o.rep.By, "verifier_output": m})
			}
		}
		viol++
		path := writeReplay(*verif, *prop, strings.Join(names, ";"), map[string]any{"property": *prop, "kind": "failed obligation", "failed_obligations": fo, "failing_input": nil, "searched": evals, "seed": seed, "tier": *tier})
		fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", *prop, path)
	}

	// ---- evidence
	level := pi.Level
	if level == "" {
		level = "proof"
	}
	assume := append([]string{}, pi.Assumptions...)
	for k := range nset {
		assume = append(assume, k)
	}
	for k := range trusted {
		if strings.Contains(k, " (") {
			assume = append(assume, k)
			continue
		}
		w := ""
		if sp := p.specs.funcs[k]; sp != nil {
			w = sp.why
		}
		if w != "" {
			w = " (" + w + ")"
		}
		assume = append(assume, "contract assumed, body not verified: "+k+w)
	}
	for k := range externs {
		assume = append(assume, "external call without contract, result unconstrained and assumed free of side effects on verified state: "+k)
	}
	assume = append(assume, generalAssumptions...)
	sort.Strings(assume)
	sort.Strings(notes)
	cov := map[string]any{
		"obligations": total, "discharged": ok,
		"checker_cmd":              fmt.Sprintf("bash /verif/check.sh %s %s", *prop, *tier),
		"trusted_base":             []string{"gover (VC generator in /verif/gover)", "golang.org/x/tools/go/ssa", "Go type checker", "z3 (z3-new, z3 4.8.12)", "cvc5 1.1.2"},
		"functions_under_contract": funcs,
		"discharged_by":            by,
		"solver_seconds":           float64(atomic.LoadInt64(&solverNanos)) / 1e9,
		"solver_calls":             atomic.LoadInt64(&solverCalls),
		"undischarged":             names,
		"out_of_reach":             unsup,
		"out_of_reach_by_design":   pi.OutOfReach,
		"notes":                    notes,
		"load_s":                   loadS,
		"proof_s":                  proofS,
		"bounded_stand_ins":        bounded,
		"samples":                  samples,
	}
	if evals > 0 {
		cov["evaluations"] = evals
		cov["distinct_nontrivial"] = dist
		cov["rule"] = "bounded stand-in and replay search: cases of the harness tests listed under bounded_stand_ins; never counted as proved"
	}
	ev := map[string]any{"property": *prop, "tier": *tier, "seed": seed, "level": level, "coverage": cov, "assumptions": assume, "wall_s": time.Since(t0).Seconds(), "violations": viol}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(*verif, "evidence"), 0o755)
	os.WriteFile(filepath.Join(*verif, "evidence", *prop+".json"), append(b, '\n'), 0o644)
	fmt.Printf("%s %s: %d/%d obligations discharged over %d functions (%.1fs), %d stand-in cases, %.1fs\n", *prop, *tier, ok, total, len(keys), proofS, evals, time.Since(t0).Seconds())
	if viol > 0 {
		return 1
	}
	return 0
}

var generalAssumptions = []string{
	"float32/float64 arithmetic: IEEE results are uninterpreted real-valued operations with order, sign and commutativity facts; no NaN, -0 equals +0",
	"integers wrap as Go specifies where an operation can overflow; slice lengths are below 2^48",
	"goroutines started by verified code are executed at their start point and locks are no-ops: interleavings are not explored by the proof",
	"termination is not proved",
}

// calledFrom: every set-aside helper is still executed inside a verified function.
func (p *Program) calledFrom(stale []string, res map[string]*JobResult) bool {
	for _, k := range stale {
		found := false
		for _, r := range res {
			for _, x := range r.Reached {
				if x == k && r.Func != k {
					found = true
				}
			}
		}
		if !found {
			return false
		}
	}
	return true
}

func writeReplay(verif, prop, key string, v any) string {
	h := sha1.Sum([]byte(key))
	path := filepath.Join(verif, "replays", prop+"-"+hex.EncodeToString(h[:5])+".json")
	b, _ := json.MarshalIndent(v, "", " ")
	os.WriteFile(path, append(b, '\n'), 0o644)
	return path
}

// runHarness compiles /verif/harness/<prop>/<package dir>/*_test.go into the real packages through an
// overlay (hiding the repository's own tests) and runs it.
func runHarness(verif, repo, prop, tier string, seed int, dl time.Time) []*harnessRun {
	root := filepath.Join(verif, "harness", prop)
	dirs := map[string][]string{}
	filepath.Walk(root, func(path string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() && strings.HasSuffix(path, "_test.go") {
			rel, _ := filepath.Rel(root, filepath.Dir(path))
			dirs[rel] = append(dirs[rel], path)
		}
		return nil
	})
	var names []string
	for d := range dirs {
		names = append(names, d)
	}
	sort.Strings(names)
	out := make([]*harnessRun, len(names))
	var wg sync.WaitGroup
	for i, d := range names {
		wg.Add(1)
		go func(i int, d string) {
			defer wg.Done()
			out[i] = runHarnessPkg(verif, repo, prop, tier, seed, dl, d, dirs[d])
		}(i, d)
	}
	wg.Wait()
	return out
}

func runHarnessPkg(verif, repo, prop, tier string, seed int, dl time.Time, d string, files []string) *harnessRun {
	r := &harnessRun{Pkg: "./" + d}
	t0 := time.Now()
	defer func() { r.Wall = time.Since(t0).Seconds() }()
	tmp, err := os.MkdirTemp("", "verif-h")
	if err != nil {
		r.Err = err.Error()
		return r
	}
	defer os.RemoveAll(tmp)
	rep := map[string]string{}
	have, _ := filepath.Glob(filepath.Join(repo, d, "*_test.go"))
	for _, f := range have {
		rep[f] = ""
	}
	pkgName := ""
	uses := map[string]bool{"common": true}
	for _, f := range files {
		rep[filepath.Join(repo, d, filepath.Base(f))] = f
		b, _ := os.ReadFile(f)
		for _, l := range strings.Split(string(b), "\n") {
			if strings.HasPrefix(l, "package ") {
				pkgName = strings.TrimSpace(l[8:])
			}
			if strings.HasPrefix(l, "//use: ") {
				for _, u := range strings.Fields(l[7:]) {
					uses[u] = true
				}
			}
		}
	}
	for u := range uses {
		cm, err := os.ReadFile(filepath.Join(verif, "harness", u+".go.tmpl"))
		if err != nil {
			r.Err = err.Error()
			return r
		}
		cf := filepath.Join(tmp, "zz_verif_"+u+"_test.go")
		os.WriteFile(cf, bytes.Replace(cm, []byte("package PKG"), []byte("package "+pkgName), 1), 0o644)
		rep[filepath.Join(repo, d, "zz_verif_"+u+"_test.go")] = cf
	}
	ov, _ := json.Marshal(map[string]any{"Replace": rep})
	ovf := filepath.Join(tmp, "overlay.json")
	os.WriteFile(ovf, ov, 0o644)
	left := time.Until(dl) - 60*time.Second
	if left < 30*time.Second {
		left = 30 * time.Second
	}
	budget := 40
	if tier == "thorough" {
		budget = 600
	}
	outf := filepath.Join(tmp, "out.jsonl")
	args := []string{"test", "-overlay", ovf, "-vet=off", "-count=1", "-timeout", left.String(), "-run", "^TestVerif"}
	args = append(args, "./"+d)
	ctx, cancel := context.WithTimeout(context.Background(), left+20*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, "go", args...)
	cmd.Dir = repo
	cmd.Env = append(os.Environ(), "VERIF_OUT="+outf, "VERIF_TIER="+tier, "VERIF_SEED="+strconv.Itoa(seed), "VERIF_BUDGET="+strconv.Itoa(budget), "VERIF_SCRATCH="+tmp, "VERIF_PROP="+prop)
	r.Cmd = fmt.Sprintf("VERIF_SEED=%d bash /verif/check.sh %s %s", seed, prop, tier)
	o, err := cmd.CombinedOutput()
	r.Output = string(o)
	if f, e := os.Open(outf); e == nil {
		sc := bufio.NewScanner(f)
		sc.Buffer(make([]byte, 1<<20), 1<<26)
		for sc.Scan() {
			var x harnessRec
			if json.Unmarshal(sc.Bytes(), &x) == nil {
				x.Pkg = r.Pkg
				r.Recs = append(r.Recs, x)
				r.Built = true
			}
		}
		f.Close()
	}
	if err != nil {
		nf := 0
		for _, x := range r.Recs {
			if x.Kind == "fail" {
				nf++
			}
		}
		if nf == 0 {
			t := r.Output
			if len(t) > 3000 {
				t = t[:3000]
			}
			if i := strings.Index(r.Output, "panic: "); strings.Contains(r.Output, "goroutine ") && !strings.Contains(r.Output, "test timed out") && (i >= 0 || strings.Contains(r.Output, "fatal error: ")) {
				// the code under test brought the process down from a goroutine of its own
				if i < 0 {
					i = strings.Index(r.Output, "fatal error: ")
				}
				d := r.Output[i:]
				if len(d) > 3000 {
					d = d[:3000]
				}
				r.Recs = append(r.Recs, harnessRec{Kind: "fail", Pkg: r.Pkg, Test: "process", Key: "crash", Detail: d})
				return r
			}
			r.Err = "harness did not run to its end: " + err.Error() + "\n" + t
			fmt.Printf("harness %s %s: %s\n", prop, r.Pkg, r.Err)
		}
	}
	return r
}
