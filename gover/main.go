package main

import (
	"flag"
	"fmt"
	"os"
	"sort"
	"strings"
	"sync"
	"time"
)

var candMS = 700

func main() {
	if len(os.Args) > 1 && os.Args[1] == "check" {
		os.Exit(checkMain(os.Args[2:]))
	}
	repo := flag.String("repo", "/repo", "")
	contracts := flag.String("contracts", "/verif/contracts", "")
	only := flag.String("func", "", "substring of contract keys to verify")
	dump := flag.String("ssa", "", "print SSA of a function key")
	verbose := flag.Bool("v", false, "")
	nohints := flag.Bool("nohints", false, "do not use contracts/hints.json")
	save := flag.Bool("save", false, "record surviving candidates in contracts/hints.json")
	flag.IntVar(&candMS, "cand", 700, "ms per candidate")
	flag.Parse()
	specs, err := LoadSpecs(*contracts)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	p, err := LoadProgram(*repo, specs, "")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	p.noHints = *nohints
	p.loadHints(*contracts + "/hints.json")
	if *dump != "" {
		for k, f := range p.fns {
			if strings.Contains(k, *dump) {
				fmt.Println("KEY", k)
				f.WriteTo(os.Stdout)
			}
		}
		return
	}
	var keys []string
	for k, s := range specs.funcs {
		if s.trusted || s.inline || s.ignore {
			continue
		}
		if *only != "" && !strings.Contains(k, *only) {
			continue
		}
		keys = append(keys, k)
	}
	sort.Strings(keys)
	keys = p.expandFnValues(keys)
	var wg sync.WaitGroup
	res := make([]*JobResult, len(keys))
	t0 := time.Now()
	for i, k := range keys {
		f := p.fns[k]
		if f == nil {
			res[i] = &JobResult{Func: k, Status: "missing"}
			continue
		}
		wg.Add(1)
		go func(i int, k string) {
			defer wg.Done()
			j := p.newJob(f, p.specFor(k))
			res[i] = j.verify(Tuning{candMS: candMS, oblMS: 10000, maxPass: 60})
		}(i, k)
	}
	for _, l := range specs.lemmas {
		if *only != "" && !strings.Contains("lemma "+l.name, *only) {
			continue
		}
		res = append(res, p.verifyLemma(l, Tuning{candMS: candMS, oblMS: 10000, maxPass: 60}))
	}
	wg.Wait()
	if *save {
		if err := saveHints(*contracts+"/hints.json", res); err != nil {
			fmt.Fprintln(os.Stderr, err)
		}
	}
	for _, r := range res {
		n, ok := 0, 0
		for _, o := range r.Obls {
			n++
			if o.Result == "proved" {
				ok++
			}
		}
		fmt.Printf("%-12s %-50s %d/%d obls  %d invs %d loops %d passes %.1fs  %s\n", r.Status, r.Func, ok, n, r.Invs, r.Loops, r.Passes, r.Wall, r.Reason)
		for _, o := range r.Obls {
			if o.Result != "proved" || *verbose {
				fmt.Printf("      %-9s %s  at %s  %s [%s %dms]\n", o.Result, o.Name, o.At, o.Src, o.By, o.MS)
			}
		}
		if *verbose {
			fmt.Println("      notes:", r.Notes, "externs:", r.Externs, "uses:", r.UsedSpecs)
		}
	}
	if os.Getenv("GOVER_PROPS") != "" {
		p.outsideClosure(res)
	}
	fmt.Printf("total %.1fs solver calls %d\n", time.Since(t0).Seconds(), solverCalls)
}

// outsideClosure lists obligations labelled with a property in functions its check does not visit.
func (p *Program) outsideClosure(res []*JobResult) {
	by := map[string]*JobResult{}
	props := map[string]bool{}
	for _, r := range res {
		by[r.Func] = r
		for _, o := range r.Obls {
			for _, q := range o.Props {
				props[q] = true
			}
		}
	}
	for q := range props {
		seen := map[string]bool{}
		var visit func(k string)
		visit = func(k string) {
			if seen[k] {
				return
			}
			seen[k] = true
			if r := by[k]; r != nil {
				for _, u := range r.UsedSpecs {
					visit(u)
				}
			}
		}
		for k, s := range p.specs.funcs {
			if s.ofProp(q) || s.alsoFor(q) {
				visit(k)
			}
		}
		for _, r := range res {
			n := map[string]int{}
			for _, o := range r.Obls {
				for _, x := range o.Props {
					if x == q && !seen[r.Func] {
						n[o.Name]++
					}
				}
			}
			for name, c := range n {
				fmt.Println("outside", q, r.Func, name, c)
			}
		}
	}
}

// expandFnValues replaces a contract on a function-valued variable or field by one obligation set
// per function of the repository that is ever stored there.
func (p *Program) expandFnValues(keys []string) []string {
	var out []string
	for _, k := range keys {
		if _, isFn := p.fns[k]; isFn || len(p.stored[k]) == 0 {
			out = append(out, k)
			continue
		}
		sp := p.specs.funcs[k]
		for _, f := range p.stored[k] {
			if len(f.Blocks) == 0 {
				continue
			}
			nk := k + "<-" + f.Name()
			cp := *sp
			cp.key = nk
			p.specs.funcs[nk] = &cp
			p.fns[nk] = f
			out = append(out, nk)
		}
	}
	return out
}
