package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"unicode"
)

// ---------------------------------------------------------------- contract files

type Expr struct {
	op   string // "id","int","real","str","call","sel","idx","bin","un","forall","exists","ite","slice"
	s    string
	args []*Expr
	vars []BVar
	pats [][]*Expr
	line string
}

type BVar struct {
	name string
	typ  string // Go type expression, or "" (int), or typeof(...)
	of   *Expr
}

type Clause struct {
	label string
	e     *Expr
	src   string
	props []string
	where string
	meta  []BVar // loop templates
	assumed bool // "assumes": an ensures clause callers rely on but the body is not checked against
}

type FuncSpec struct {
	key      string // e.g. "priorityqueue.Queue.Insert"
	params   []string
	results  []string
	requires []*Clause
	ensures  []*Clause
	modifies []*Expr
	modAny   bool // "modifies *" : may write anything (extern)
	invs     []*Clause
	asserts  []*Clause
	ghosts   []*GhostUpd
	nopanic  bool
	trusted  bool // contract assumed, body not verified
	extern   bool
	inline   bool
	expand   bool // verified on its own, expanded at its calls
	pure     bool
	ignore   bool // calls have no effect and unknown results
	props    []string
	file     string
	line     int
	why      string
	pkg      string
	noinv    bool
	bodyless bool
	sig      string
	opts     map[string]string
	allocs   bool
}

type GhostUpd struct {
	name string
	e    *Expr
}

type Macro struct {
	name   string
	params []string
	body   *Expr
	src    string
	pkg    string
	opaque bool    // outside its package the macro is an uninterpreted predicate of its footprint
	reads  []*Expr // footprint
	encaps bool    // footprint completeness follows from encapsulation, not from the body (an assumption)
}

type Fold struct {
	name    string
	params  []string // slice params
	extra   []string
	init    *Expr
	step    *Expr // uses acc, i
	sortS   string
	isCount bool
	src     string
}

type GhostVar struct {
	name string
	typ  string // "int", "bool", "map[K]V" expressed as SMT sort shorthand
	srt  string
}

type Specs struct {
	funcs    map[string]*FuncSpec
	macros   map[string]*Macro
	folds    map[string]*Fold
	pkgInvs  map[string][]*Clause // package -> loop templates
	ghosts   map[string]*GhostVar
	uninterp map[string]*UFun
	axioms   []*Clause
	pureFn   map[string]bool // "Queue.less" fields whose func values are pure
	typeInv  map[string][]*Clause
	owned    map[string]bool
	ignoreType map[string]bool // methods of these types have no effect on verified state
	lemmas   []*Lemma
	fallback map[string]bool
	frameFree map[string]bool
	guards    map[string]*guard // guarded fields
}

type Lemma struct {
	name, by, pkg, src, where string
	e                         *Expr
}

type UFun struct {
	name string
	args []string
	ret  string
}

func LoadSpecs(dir string) (*Specs, error) {
	sp := &Specs{funcs: map[string]*FuncSpec{}, macros: map[string]*Macro{}, folds: map[string]*Fold{},
		pkgInvs: map[string][]*Clause{}, ghosts: map[string]*GhostVar{}, pureFn: map[string]bool{}, typeInv: map[string][]*Clause{},
		uninterp: map[string]*UFun{}, owned: map[string]bool{}, ignoreType: map[string]bool{}}
	files, _ := filepath.Glob(filepath.Join(dir, "*.spec"))
	sort.Strings(files)
	for _, f := range files {
		if err := sp.loadFile(f); err != nil {
			return nil, fmt.Errorf("%s: %w", f, err)
		}
	}
	return sp, nil
}

var keywords = map[string]bool{"package": true, "macro": true, "fold": true, "func": true, "extern": true, "requires": true,
	"ensures": true, "modifies": true, "inv": true, "nopanic": true, "trusted": true, "props": true, "pkginv": true, "ghost": true,
	"purefield": true, "guarded": true, "typeinv": true, "update": true, "inline": true, "expand": true, "pure": true, "ignore": true, "count": true, "why": true,
	"ufun": true, "axiom": true, "owned": true, "opt": true, "allocs": true, "lemma": true, "assert": true, "assumes": true, "ignoretype": true, "pkgalias": true, "opaque": true, "presumes": true}

func (sp *Specs) loadFile(f string) error {
	b, err := os.ReadFile(f)
	if err != nil {
		return err
	}
	type raw struct {
		kw, text string
		line     int
	}
	var rs []raw
	for i, l := range strings.Split(string(b), "\n") {
		if k := strings.Index(l, "//"); k >= 0 && !strings.Contains(l[:k], "\"") {
			l = l[:k]
		}
		t := strings.TrimSpace(l)
		if t == "" {
			continue
		}
		w := t
		if k := strings.IndexFunc(t, func(r rune) bool { return !unicode.IsLetter(r) }); k >= 0 {
			w = t[:k]
		}
		if keywords[w] && (len(t) == len(w) || strings.ContainsRune(" \t[(", rune(t[len(w)]))) && !(w == "old") {
			rs = append(rs, raw{w, strings.TrimSpace(t[len(w):]), i + 1})
		} else {
			if len(rs) == 0 {
				return fmt.Errorf("line %d: stray text", i+1)
			}
			rs[len(rs)-1].text += " " + t
		}
	}
	pkg := ""
	var cur *FuncSpec
	for _, r := range rs {
		fail := func(e error) error { return fmt.Errorf("line %d: %s: %w", r.line, r.kw, e) }
		clause := func() (*Clause, error) {
			cl := &Clause{where: fmt.Sprintf("%s:%d", filepath.Base(f), r.line)}
			t := r.text
			if strings.HasPrefix(t, "[") {
				k := strings.Index(t, "]")
				parts := strings.Fields(strings.ReplaceAll(t[1:k], ",", " "))
				cl.label = parts[0]
				cl.props = parts[1:]
				t = strings.TrimSpace(t[k+1:])
			}
			cl.src = t
			e, err := parseExpr(t)
			cl.e = e
			return cl, err
		}
		switch r.kw {
		case "package":
			pkg = r.text
			cur = nil
		case "macro", "opaque":
			eq := strings.Index(r.text, "=")
			h := strings.TrimSpace(r.text[:eq])
			p := strings.Index(h, "(")
			q := strings.Index(h, ")")
			m := &Macro{name: h[:p], params: splitNames(h[p+1 : q]), src: r.text, pkg: pkg, opaque: r.kw == "opaque"}
			if rest := strings.TrimSpace(h[q+1:]); rest != "" {
				if strings.HasPrefix(rest, "owns") {
					m.encaps = true
				} else if !strings.HasPrefix(rest, "reads") {
					return fail(fmt.Errorf("reads expected"))
				}
				for _, x := range splitTop(strings.TrimSpace(strings.TrimPrefix(strings.TrimPrefix(rest, "owns"), "reads")), ',') {
					e, err := parseExpr(x)
					if err != nil {
						return fail(err)
					}
					m.reads = append(m.reads, e)
				}
			}
			e, err := parseExpr(r.text[eq+1:])
			if err != nil {
				return fail(err)
			}
			m.body = e
			sp.macros[m.name] = m
			cur = nil
		case "fold":
			// fold name(a, b; extra) Real = init ; step
			eq := strings.Index(r.text, "=")
			h := strings.TrimSpace(r.text[:eq])
			p := strings.Index(h, "(")
			q := strings.Index(h, ")")
			fo := &Fold{name: strings.TrimSpace(h[:p]), sortS: strings.TrimSpace(h[q+1:]), src: r.text}
			ps := strings.Split(h[p+1:q], ";")
			fo.params = splitNames(ps[0])
			if len(ps) > 1 {
				fo.extra = splitNames(ps[1])
			}
			body := r.text[eq+1:]
			k := strings.Index(body, ";")
			var err error
			if fo.init, err = parseExpr(body[:k]); err != nil {
				return fail(err)
			}
			if fo.step, err = parseExpr(body[k+1:]); err != nil {
				return fail(err)
			}
			sp.folds[fo.name] = fo
			cur = nil
		case "ufun":
			// ufun name(Sort, Sort) Sort   (SMT sorts)
			p := strings.Index(r.text, "(")
			q := strings.LastIndex(r.text, ")")
			rest := strings.TrimSpace(r.text[q+1:])
			depth := 0
			// argument list closes at the matching paren
			for i := p; i < len(r.text); i++ {
				if r.text[i] == '(' {
					depth++
				} else if r.text[i] == ')' {
					depth--
					if depth == 0 {
						q = i
						rest = strings.TrimSpace(r.text[i+1:])
						break
					}
				}
			}
			u := &UFun{name: strings.TrimSpace(r.text[:p]), ret: rest}
			for _, a := range splitTop(r.text[p+1:q], ',') {
				if strings.TrimSpace(a) != "" {
					u.args = append(u.args, strings.TrimSpace(a))
				}
			}
			sp.uninterp[u.name] = u
			cur = nil
		case "axiom":
			cl, err := clause()
			if err != nil {
				return fail(err)
			}
			sp.axioms = append(sp.axioms, cl)
			cur = nil
		case "ghost":
			k := strings.IndexAny(r.text, " ")
			sp.ghosts[r.text[:k]] = &GhostVar{name: r.text[:k], srt: strings.TrimSpace(r.text[k:])}
			cur = nil
		case "guarded": // guarded T.f by lock
			w := strings.Fields(r.text)
			d := strings.LastIndex(w[0], ".")
			if len(w) < 3 || w[1] != "by" || d < 0 {
				return fail(fmt.Errorf("guarded T.f by lock [mod N]"))
			}
			var shards int64
			if len(w) == 5 && w[3] == "mod" {
				fmt.Sscan(w[4], &shards)
			}
			writes := len(w) == 4 && w[3] == "writes"
			if sp.guards == nil {
				sp.guards = map[string]*guard{}
			}
			sp.guards[w[0]] = &guard{typ: w[0][:d], field: w[0][d+1:], lock: w[2], shards: shards, writes: writes}
			cur = nil
		case "purefield":
			sp.pureFn[r.text] = true
			cur = nil
		case "pkgalias": // pkgalias NAME PATH: how contracts call a package whose own name is taken
			if w := strings.Fields(r.text); len(w) == 2 {
				pkgAlias[w[1]] = w[0]
			}
			cur = nil
		case "ignoretype":
			sp.ignoreType[r.text] = true
			cur = nil
		case "owned":
			sp.owned[r.text] = true
			cur = nil
		case "typeinv":
			k := strings.Index(r.text, " ")
			t := r.text[:k]
			e, err := parseExpr(r.text[k:])
			if err != nil {
				return fail(err)
			}
			sp.typeInv[t] = append(sp.typeInv[t], &Clause{e: e, src: r.text[k:], where: fmt.Sprintf("%s:%d", filepath.Base(f), r.line)})
			cur = nil
		case "pkginv":
			cl, err := parseInv(r.text)
			if err != nil {
				return fail(err)
			}
			cl.where = fmt.Sprintf("%s:%d", filepath.Base(f), r.line)
			sp.pkgInvs[pkg] = append(sp.pkgInvs[pkg], cl)
			cur = nil
		case "lemma":
			// lemma name [by i] : expr
			k := strings.Index(r.text, ":")
			h := strings.Fields(r.text[:k])
			l := &Lemma{name: h[0], pkg: pkg, src: strings.TrimSpace(r.text[k+1:]), where: fmt.Sprintf("%s:%d", filepath.Base(f), r.line)}
			if len(h) == 3 && h[1] == "by" {
				l.by = h[2]
			}
			e, err := parseExpr(l.src)
			if err != nil {
				return fail(err)
			}
			l.e = e
			sp.lemmas = append(sp.lemmas, l)
			cur = nil
		case "func", "extern":
			h := r.text
			fs := &FuncSpec{file: filepath.Base(f), line: r.line, pkg: pkg, extern: r.kw == "extern", opts: map[string]string{}}
			p := strings.LastIndex(h, "(")
			// allow results:  name(a,b) (r, err)
			op := strings.Index(h, "(")
			cp := strings.Index(h, ")")
			if cp < len(h)-1 && strings.Contains(h[cp+1:], "(") {
				fs.results = splitNames(strings.Trim(strings.TrimSpace(h[cp+1:]), "()"))
				p = op
			}
			_ = p
			fs.key = strings.TrimSpace(h[:op])
			fs.params = splitNames(h[op+1 : cp])
			if !fs.extern && pkg != "" {
				fs.key = pkg + "." + fs.key
			}
			if fs.extern {
				fs.trusted = true
			}
			{
				if _, dup := sp.funcs[fs.key]; dup {
					return fail(fmt.Errorf("duplicate contract %s", fs.key))
				}
				sp.funcs[fs.key] = fs
			}
			cur = fs
		default:
			if cur == nil {
				return fail(fmt.Errorf("clause outside a function"))
			}
			switch r.kw {
			case "requires", "ensures", "assert", "assumes", "presumes":
				cl, err := clause()
				if err != nil {
					return fail(err)
				}
				if r.kw == "requires" || r.kw == "presumes" {
					cl.assumed = r.kw == "presumes"
					cur.requires = append(cur.requires, cl)
				} else if r.kw == "ensures" || r.kw == "assumes" {
					cl.assumed = r.kw == "assumes"

					cur.ensures = append(cur.ensures, cl)
				} else {
					cur.asserts = append(cur.asserts, cl)
				}
			case "modifies":
				if strings.TrimSpace(r.text) == "*" {
					cur.modAny = true
					break
				}
				for _, p := range splitTop(r.text, ',') {
					e, err := parseExpr(p)
					if err != nil {
						return fail(err)
					}
					cur.modifies = append(cur.modifies, e)
				}
			case "inv":
				cl, err := parseInv(r.text)
				if err != nil {
					return fail(err)
				}
				cl.where = fmt.Sprintf("%s:%d", filepath.Base(f), r.line)
				cur.invs = append(cur.invs, cl)
			case "nopanic":
				cur.nopanic = true
			case "trusted":
				cur.trusted = true
				cur.why = r.text
			case "why":
				cur.why = r.text
			case "expand":
				cur.expand = true
			case "inline":
				cur.inline = true
			case "pure":
				cur.pure = true
			case "ignore":
				cur.ignore = true
			case "allocs":
				cur.allocs = true
			case "props":
				cur.props = splitNames(r.text)
			case "opt":
				kv := strings.SplitN(r.text, "=", 2)
				v := "true"
				if len(kv) == 2 {
					v = strings.TrimSpace(kv[1])
				}
				cur.opts[strings.TrimSpace(kv[0])] = v
			case "update":
				eq := strings.Index(r.text, ":=")
				e, err := parseExpr(r.text[eq+2:])
				if err != nil {
					return fail(err)
				}
				cur.ghosts = append(cur.ghosts, &GhostUpd{strings.TrimSpace(r.text[:eq]), e})
			}
		}
	}
	return nil
}

// inv (i int, acc float32) expr
func parseInv(t string) (*Clause, error) {
	cl := &Clause{}
	t = strings.TrimSpace(t)
	if strings.HasPrefix(t, "<") {
		k := strings.Index(t, ">")
		for _, d := range splitTop(t[1:k], ',') {
			if strings.TrimSpace(d) == "" {
				continue
			}
			fs := strings.Fields(strings.TrimSpace(d))
			if len(fs) < 2 {
				return nil, fmt.Errorf("bad meta %q", d)
			}
			cl.meta = append(cl.meta, BVar{name: fs[0], typ: strings.Join(fs[1:], " ")})
		}
		t = t[k+1:]
	}
	cl.src = strings.TrimSpace(t)
	e, err := parseExpr(t)
	cl.e = e
	return cl, err
}

func splitNames(s string) []string {
	var out []string
	for _, x := range strings.Split(s, ",") {
		x = strings.TrimSpace(x)
		if x != "" {
			out = append(out, x)
		}
	}
	return out
}

func splitTop(s string, sep byte) []string {
	var out []string
	d, st := 0, 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(', '[':
			d++
		case ')', ']':
			d--
		case sep:
			if d == 0 {
				out = append(out, s[st:i])
				st = i + 1
			}
		}
	}
	return append(out, s[st:])
}

// ---------------------------------------------------------------- expression parser

type tok struct {
	k string // "id","int","real","str","op","eof"
	s string
}

type parser struct {
	ts []tok
	i  int
}

func lex(s string) ([]tok, error) {
	var out []tok
	i := 0
	for i < len(s) {
		ch := s[i]
		switch {
		case ch == ' ' || ch == '\t' || ch == '\n':
			i++
		case ch == '"' || ch == '\'':
			k := i + 1
			for k < len(s) && s[k] != ch {
				k++
			}
			if k >= len(s) {
				return nil, fmt.Errorf("unterminated string")
			}
			out = append(out, tok{"str", s[i+1 : k]})
			i = k + 1
		case ch >= '0' && ch <= '9':
			k := i
			for k < len(s) && (s[k] >= '0' && s[k] <= '9') {
				k++
			}
			kind := "int"
			if k+1 < len(s) && s[k] == '.' && s[k+1] >= '0' && s[k+1] <= '9' {
				kind = "real"
				k++
				for k < len(s) && (s[k] >= '0' && s[k] <= '9') {
					k++
				}
			}
			out = append(out, tok{kind, s[i:k]})
			i = k
		case ch == '_' || unicode.IsLetter(rune(ch)) || ch == '$':
			k := i
			for k < len(s) && (s[k] == '_' || s[k] == '$' || unicode.IsLetter(rune(s[k])) || unicode.IsDigit(rune(s[k]))) {
				k++
			}
			out = append(out, tok{"id", s[i:k]})
			i = k
		default:
			done := false
			for _, op := range []string{"<==>", "==>", "::", "==", "!=", "<=", ">=", "&&", "||", ".."} {
				if strings.HasPrefix(s[i:], op) {
					out = append(out, tok{"op", op})
					i += len(op)
					done = true
					break
				}
			}
			if !done {
				out = append(out, tok{"op", string(ch)})
				i++
			}
		}
	}
	return append(out, tok{"eof", ""}), nil
}

func parseExpr(s string) (e *Expr, err error) {
	ts, err := lex(s)
	if err != nil {
		return nil, err
	}
	p := &parser{ts: ts}
	defer func() {
		if r := recover(); r != nil {
			if pe, ok := r.(parseErr); ok {
				err = fmt.Errorf("%s in %q", string(pe), s)
				return
			}
			panic(r)
		}
	}()
	e = p.expr(0)
	if p.peek().k != "eof" {
		return nil, fmt.Errorf("unexpected %q in %q", p.peek().s, s)
	}
	return e, nil
}

type parseErr string

func (p *parser) peek() tok { return p.ts[p.i] }
func (p *parser) next() tok { t := p.ts[p.i]; p.i++; return t }
func (p *parser) is(s string) bool {
	t := p.peek()
	return (t.k == "op" || t.k == "id") && t.s == s
}
func (p *parser) eat(s string) {
	if !p.is(s) {
		panic(parseErr(fmt.Sprintf("expected %q got %q", s, p.peek().s)))
	}
	p.i++
}

var prec = map[string]int{"<==>": 1, "==>": 2, "||": 3, "&&": 4, "==": 5, "!=": 5, "<": 5, "<=": 5, ">": 5, ">=": 5, "in": 5, "+": 6, "-": 6, "*": 7, "/": 7, "%": 7}

func (p *parser) expr(min int) *Expr {
	l := p.unary()
	for {
		t := p.peek()
		pr, ok := prec[t.s]
		if !ok || pr < min || (t.k != "op" && t.s != "in") || pr == 0 {
			return l
		}
		if t.k == "str" {
			return l
		}
		p.next()
		switch {
		case t.s == "==>":
			r := p.expr(pr)
			l = &Expr{op: "bin", s: t.s, args: []*Expr{l, r}}
		case pr == 5:
			r := p.expr(pr + 1)
			e := &Expr{op: "bin", s: t.s, args: []*Expr{l, r}}
			// chains: a <= b < c
			for {
				t2 := p.peek()
				if t2.k == "op" && prec[t2.s] == 5 {
					p.next()
					r2 := p.expr(pr + 1)
					e = &Expr{op: "bin", s: "&&", args: []*Expr{e, {op: "bin", s: t2.s, args: []*Expr{r, r2}}}}
					r = r2
				} else {
					break
				}
			}
			l = e
		default:
			r := p.expr(pr + 1)
			l = &Expr{op: "bin", s: t.s, args: []*Expr{l, r}}
		}
	}
}

func (p *parser) unary() *Expr {
	t := p.peek()
	if t.k == "op" && (t.s == "!" || t.s == "-" || t.s == "*") {
		p.next()
		return &Expr{op: "un", s: t.s, args: []*Expr{p.unary()}}
	}
	if t.k == "id" && (t.s == "forall" || t.s == "exists") {
		p.next()
		e := &Expr{op: t.s}
		for {
			n := p.next()
			if n.k != "id" {
				panic(parseErr("bound variable expected, got " + n.s))
			}
			bv := BVar{name: n.s}
			// type tokens until , or ::
			var ty []string
			for !p.is(",") && !p.is("::") {
				if p.is("elem") {
					p.next()
					p.eat("(")
					bv.of = p.expr(0)
					p.eat(")")
					continue
				}
				ty = append(ty, p.next().s)
			}
			bv.typ = strings.Join(ty, "")
			e.vars = append(e.vars, bv)
			if p.is(",") {
				p.next()
				continue
			}
			break
		}
		p.eat("::")
		for p.is("{") {
			p.next()
			var pat []*Expr
			for {
				pat = append(pat, p.expr(0))
				if p.is(",") {
					p.next()
					continue
				}
				break
			}
			p.eat("}")
			e.pats = append(e.pats, pat)
		}
		e.args = []*Expr{p.expr(0)}
		// share types backwards: "i, j int"
		for k := len(e.vars) - 2; k >= 0; k-- {
			if e.vars[k].typ == "" && e.vars[k].of == nil {
				e.vars[k].typ = e.vars[k+1].typ
				e.vars[k].of = e.vars[k+1].of
			}
		}
		return e
	}
	if t.k == "id" && t.s == "if" {
		p.next()
		c := p.expr(0)
		p.eat("then")
		a := p.expr(0)
		p.eat("else")
		b := p.expr(0)
		return &Expr{op: "ite", args: []*Expr{c, a, b}}
	}
	return p.postfix()
}

func (p *parser) postfix() *Expr {
	var e *Expr
	t := p.next()
	switch {
	case t.k == "int":
		e = &Expr{op: "int", s: t.s}
	case t.k == "real":
		e = &Expr{op: "real", s: t.s}
	case t.k == "str":
		e = &Expr{op: "str", s: t.s}
	case t.k == "id":
		e = &Expr{op: "id", s: t.s}
	case t.s == "(":
		e = p.expr(0)
		p.eat(")")
	default:
		panic(parseErr(fmt.Sprintf("unexpected %q", t.s)))
	}
	for {
		switch {
		case p.is("."):
			p.next()
			n := p.next()
			e = &Expr{op: "sel", s: n.s, args: []*Expr{e}}
		case p.is("["):
			p.next()
			if p.is("*") {
				p.next()
				p.eat("]")
				e = &Expr{op: "all", args: []*Expr{e}}
				continue
			}
			if p.is("..") {
				p.next()
				hi := p.expr(0)
				p.eat("]")
				e = &Expr{op: "slice", args: []*Expr{e, nil, hi}}
				continue
			}
			i := p.expr(0)
			if p.is("..") {
				p.next()
				var hi *Expr
				if !p.is("]") {
					hi = p.expr(0)
				}
				p.eat("]")
				e = &Expr{op: "slice", args: []*Expr{e, i, hi}}
				continue
			}
			p.eat("]")
			e = &Expr{op: "idx", args: []*Expr{e, i}}
		case p.is("("):
			p.next()
			c := &Expr{op: "call", args: []*Expr{e}}
			for !p.is(")") {
				c.args = append(c.args, p.expr(0))
				if p.is(",") {
					p.next()
				}
			}
			p.eat(")")
			e = c
		default:
			return e
		}
	}
}
