package main

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type Result int

const (
	Unknown Result = iota
	Proved
	Refuted
)

func (r Result) String() string { return [...]string{"unknown", "proved", "refuted"}[r] }

var solverSem = make(chan struct{}, 8)
var solverNanos int64
var solverCalls int64

type backend struct {
	name string
	args func(ms int) []string
	pre  string
}

var backends = []backend{
	{"z3-new", func(ms int) []string { return []string{"z3-new", "-in", "-smt2"} },
		"(set-option :auto_config false)\n(set-option :smt.mbqi false)\n(set-option :smt.random_seed 0)\n"},
	{"z3-new-mbqi", func(ms int) []string { return []string{"z3-new", "-in", "-smt2"} }, ""},
	{"z3", func(ms int) []string { return []string{"z3", "-in", "-smt2"} },
		"(set-option :auto_config false)\n(set-option :smt.mbqi false)\n"},
	{"cvc5", func(ms int) []string {
		return []string{"cvc5", "--lang=smt2", "--incremental", fmt.Sprintf("--tlimit-per=%d", ms), "-"}
	}, "(set-logic ALL)\n"},
}

var deadline time.Time

func runSolver(b backend, script string, ms, n int) (string, error) {
	solverSem <- struct{}{}
	defer func() { <-solverSem }()
	t0 := time.Now()
	tot := time.Duration(ms*n+3000) * time.Millisecond
	if !deadline.IsZero() {
		if r := time.Until(deadline); r < tot {
			tot = r
		}
		if tot <= 0 {
			return "", fmt.Errorf("deadline")
		}
	}
	ctx, cancel := context.WithTimeout(context.Background(), tot)
	defer cancel()
	a := b.args(ms)
	cmd := exec.CommandContext(ctx, a[0], a[1:]...)
	pre := b.pre
	if strings.HasPrefix(b.name, "z3") {
		pre += fmt.Sprintf("(set-option :timeout %d)\n", ms)
	}
	cmd.Stdin = strings.NewReader(pre + script)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	err := cmd.Run()
	atomic.AddInt64(&solverNanos, int64(time.Since(t0)))
	atomic.AddInt64(&solverCalls, 1)
	o := out.String()
	if strings.Contains(o, "WARNING") {
		var ls []string
		for _, l := range strings.Split(o, "\n") {
			if !strings.HasPrefix(l, "WARNING") {
				ls = append(ls, l)
			}
		}
		o = strings.Join(ls, "\n")
	}
	return o, err
}

// Query is one validity question: facts |= goal.
type Query struct {
	facts  []*Term
	goal   *Term
	res    Result
	by     string
	model  string
	ms     int64
	output string
}

// CheckBatch decides goals sharing the same facts in one incremental session.
func (j *Job) CheckBatch(facts []*Term, goals []*Term, ms int, be backend) []Result {
	res := make([]Result, len(goals))
	c := j.c
	s := NewScript(c)
	all := append(append([]*Term{}, facts...), goals...)
	extra := j.saturate(all)
	for _, t := range extra {
		s.Assert(t)
	}
	for _, f := range facts {
		if f != c.True {
			s.Assert(f)
		}
	}
	var idx []int
	for i, g := range goals {
		if g == c.True {
			res[i] = Proved
			continue
		}
		idx = append(idx, i)
		s.prepare(g)
	}
	if len(idx) == 0 {
		return res
	}
	for _, i := range idx {
		s.Raw("(push 1)\n(assert (not ")
		c.tree(&s.sb, goals[i], s.named, 0)
		s.Raw("))\n(check-sat)\n(pop 1)\n(echo \"--\")\n")
	}
	if os.Getenv("GOVER_DUMP") != "" {
		dumpN := atomic.AddInt64(&dumpCtr, 1)
		os.WriteFile(fmt.Sprintf("%s/q%04d.smt2", os.Getenv("GOVER_DUMP"), dumpN), []byte(be.pre+s.sb.String()), 0o644)
	}
	out, _ := runSolver(be, s.sb.String(), ms, len(idx))
	parts := strings.Split(out, "--")
	if strings.Contains(out, "(error") {
		j.solverErr(out, s.sb.String())
	}
	for k, i := range idx {
		if k < len(parts) {
			p := strings.TrimSpace(strings.Trim(parts[k], "\"\n "))
			switch {
			case strings.HasPrefix(p, "unsat"):
				res[i] = Proved
			case strings.HasPrefix(p, "sat"):
				res[i] = Refuted
			}
		}
	}
	return res
}

var dumpCtr int64
var errOnce sync.Once

func (j *Job) solverErr(out, script string) {
	errOnce.Do(func() {
		os.WriteFile("/tmp/gover_err.smt2", []byte(script), 0o644)
		i := strings.Index(out, "(error")
		e := out[i:]
		if len(e) > 400 {
			e = e[:400]
		}
		fmt.Fprintf(os.Stderr, "gover: solver error (script in /tmp/gover_err.smt2): %s\n", e)
	})
}

// CheckOne decides one goal trying every back end.
func (j *Job) CheckOne(facts []*Term, goal *Term, ms int) (Result, string, string) {
	c := j.c
	if goal == c.True {
		return Proved, "simplifier", ""
	}
	s := NewScript(c)
	extra := j.saturate(append(append([]*Term{}, facts...), goal))
	for _, t := range extra {
		s.Assert(t)
	}
	for _, f := range facts {
		if f != c.True {
			s.Assert(f)
		}
	}
	s.Assert(c.Not(goal))
	s.Raw("(check-sat)\n")
	script := s.sb.String()
	if os.Getenv("GOVER_DUMP") != "" {
		dumpN := atomic.AddInt64(&dumpCtr, 1)
		os.WriteFile(fmt.Sprintf("%s/q%04d.smt2", os.Getenv("GOVER_DUMP"), dumpN), []byte(backends[0].pre+script), 0o644)
	}
	type r struct {
		res Result
		by  string
		out string
	}
	ch := make(chan r, len(backends))
	order := []int{0, 3, 2, 1}
	var last r
	last.res = Unknown
	for _, bi := range order[:1] {
		b := backends[bi]
		out, _ := runSolver(b, script, ms, 1)
		if strings.Contains(out, "(error") {
			j.solverErr(out, script)
		}
		if strings.HasPrefix(out, "unsat") {
			return Proved, b.name, ""
		}
		last = r{Unknown, b.name, out}
	}
	for _, bi := range order[1:] {
		go func(b backend) {
			out, _ := runSolver(b, script, ms, 1)
			rr := r{Unknown, b.name, out}
			if strings.HasPrefix(out, "unsat") {
				rr.res = Proved
			} else if strings.HasPrefix(out, "sat") && b.name == "z3-new-mbqi" {
				rr.res = Refuted
			}
			ch <- rr
		}(backends[bi])
	}
	for range order[1:] {
		x := <-ch
		if x.res == Proved {
			return Proved, x.by, ""
		}
		if x.res == Refuted {
			last = x
		}
	}
	if last.res == Refuted || strings.HasPrefix(last.out, "sat") || strings.HasPrefix(last.out, "unknown") {
		out, _ := runSolver(backends[0], script+"(get-model)\n", ms, 1)
		return last.res, last.by, out
	}
	return last.res, last.by, last.out
}
