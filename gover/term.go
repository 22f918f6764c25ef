package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// ---------------------------------------------------------------- terms

const (
	SInt  = "Int"
	SBool = "Bool"
	SReal = "Real"
	SStr  = "String"
	SSlc  = "Slc"
)

func SArr(k, v string) string { return "(Array " + k + " " + v + ")" }

// Term is a hash-consed SMT term.
type Term struct {
	id    int
	op    string
	args  []*Term
	sort  string
	n     *big.Int // integer literals
	bound bool     // mentions a quantified variable
	vars  []*Term  // quantifiers
	pats  [][]*Term
	size  int
}

type Datatype struct {
	name   string
	fields []string // accessor names
	sorts  []string
}

type Ctx struct {
	tab     map[string]*Term
	next    int
	fresh   map[string]int
	rng     map[*Term][2]*big.Int
	dts     map[string]*Datatype
	dtOrder []string
	funs    map[string]string // name -> "(args) ret" declaration
	funRet  map[string]string
	funOrd  []string
	axioms  []*Term // global (always valid) axioms, included when relevant
	consts  map[string]*Term
	sorts   map[string]bool
	sortOrd []string
	zeroOff map[*Term]bool
	birth   map[*Term]int // creation sequence of free constants
	seq     int
	True    *Term
	False   *Term
}

func NewCtx() *Ctx {
	c := &Ctx{tab: map[string]*Term{}, fresh: map[string]int{}, rng: map[*Term][2]*big.Int{},
		dts: map[string]*Datatype{}, funs: map[string]string{}, funRet: map[string]string{}, consts: map[string]*Term{},
		sorts: map[string]bool{}, birth: map[*Term]int{}, zeroOff: map[*Term]bool{}}
	c.True = c.mk("true", SBool)
	c.False = c.mk("false", SBool)
	c.Datatype(SSlc, []string{"s_arr", "s_off", "s_len", "s_cap"}, []string{SInt, SInt, SInt, SInt})
	return c
}

func (c *Ctx) Datatype(name string, fields, sorts []string) *Datatype {
	if d, ok := c.dts[name]; ok {
		return d
	}
	d := &Datatype{name, fields, sorts}
	c.dts[name] = d
	c.dtOrder = append(c.dtOrder, name)
	return d
}

func (c *Ctx) DeclSort(name string) {
	if !c.sorts[name] {
		c.sorts[name] = true
		c.sortOrd = append(c.sortOrd, name)
	}
}

func (c *Ctx) mk(op, srt string, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('|')
	sb.WriteString(srt)
	for _, a := range args {
		fmt.Fprintf(&sb, "|%d", a.id)
	}
	k := sb.String()
	if t, ok := c.tab[k]; ok {
		return t
	}
	c.next++
	t := &Term{id: c.next, op: op, args: args, sort: srt, size: 1}
	for _, a := range args {
		if a.bound {
			t.bound = true
		}
		t.size += a.size
		if t.size > 1<<28 {
			t.size = 1 << 28
		}
	}
	c.tab[k] = t
	return t
}

// Const declares (or returns) a free constant.
func (c *Ctx) Const(name, srt string) *Term {
	name = sanitize(name)
	if t, ok := c.consts[name]; ok {
		if _, b := c.birth[t]; !b {
			c.seq++
			c.birth[t] = c.seq
		}
		if t.sort != srt {
			panic("sort clash for " + name + ": " + t.sort + " vs " + srt)
		}
		return t
	}
	t := c.mk("const:"+name, srt)
	c.consts[name] = t
	c.seq++
	c.birth[t] = c.seq
	return t
}

func sanitize(s string) string {
	var sb strings.Builder
	for _, r := range s {
		switch {
		case r >= 'a' && r <= 'z', r >= 'A' && r <= 'Z', r >= '0' && r <= '9', r == '_', r == '.', r == '!', r == '$', r == '@':
			sb.WriteRune(r)
		default:
			sb.WriteByte('_')
		}
	}
	return sb.String()
}

func (c *Ctx) Fresh(hint, srt string) *Term {
	hint = sanitize(hint)
	c.fresh[hint]++
	return c.Const(fmt.Sprintf("%s!%d", hint, c.fresh[hint]), srt)
}

func (c *Ctx) BoundVar(hint, srt string) *Term {
	hint = sanitize(hint)
	c.fresh["?"+hint]++
	t := c.mk(fmt.Sprintf("var:%s?%d", strings.ReplaceAll(hint, "?", ""), c.fresh["?"+hint]), srt)
	t.bound = true
	return t
}

func (c *Ctx) DeclFun(name string, args []string, ret string) string {
	name = sanitize(name)
	if _, ok := c.funs[name]; !ok {
		c.funs[name] = "(" + strings.Join(args, " ") + ") " + ret
		c.funRet[name] = ret
		c.funOrd = append(c.funOrd, name)
	}
	return name
}

func (c *Ctx) App(name, ret string, args ...*Term) *Term {
	var as []string
	for _, a := range args {
		as = append(as, a.sort)
	}
	name = c.DeclFun(name, as, ret)
	if len(args) == 0 {
		return c.Const(name, ret)
	}
	return c.mk("fn:"+name, ret, args...)
}

func (c *Ctx) Int(n int64) *Term { return c.BigInt(big.NewInt(n)) }
func (c *Ctx) BigInt(n *big.Int) *Term {
	t := c.mk("int:"+n.String(), SInt)
	t.n = n
	return t
}
func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.True
	}
	return c.False
}

func (c *Ctx) RealRat(r *big.Rat) *Term {
	return c.mk("real:"+r.RatString(), SReal)
}

func (c *Ctx) Str(s string) *Term {
	return c.mk("str:"+s, SStr)
}

func isInt(t *Term) bool { return t.n != nil }

// ---------------------------------------------------------------- boolean

func (c *Ctx) Not(a *Term) *Term {
	switch {
	case a == c.True:
		return c.False
	case a == c.False:
		return c.True
	case a.op == "not":
		return a.args[0]
	}
	return c.mk("not", SBool, a)
}

func (c *Ctx) And(as ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t == c.True || seen[t] {
			return true
		}
		if t == c.False {
			return false
		}
		if t.op == "and" {
			for _, x := range t.args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		if t.op == "not" && seen[t.args[0]] {
			return false
		}
		seen[t] = true
		out = append(out, t)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return c.False
		}
	}
	for _, t := range out {
		if t.op == "not" && seen[t.args[0]] {
			return c.False
		}
	}
	switch len(out) {
	case 0:
		return c.True
	case 1:
		return out[0]
	}
	return c.mk("and", SBool, out...)
}

func (c *Ctx) Or(as ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t == c.False || seen[t] {
			return true
		}
		if t == c.True {
			return false
		}
		if t.op == "or" {
			for _, x := range t.args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		seen[t] = true
		out = append(out, t)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return c.True
		}
	}
	for _, t := range out {
		if t.op == "not" && seen[t.args[0]] {
			return c.True
		}
	}
	switch len(out) {
	case 0:
		return c.False
	case 1:
		return out[0]
	}
	return c.mk("or", SBool, out...)
}

func (c *Ctx) Imp(a, b *Term) *Term {
	if a == c.True {
		return b
	}
	if a == c.False || b == c.True || a == b {
		return c.True
	}
	if b == c.False {
		return c.Not(a)
	}
	return c.mk("=>", SBool, a, b)
}

func (c *Ctx) Iff(a, b *Term) *Term { return c.Eq(a, b) }

func (c *Ctx) Ite(g, a, b *Term) *Term {
	if a == b || g == c.True {
		return a
	}
	if g == c.False {
		return b
	}
	if a.sort != b.sort {
		panic("ite sort clash " + a.sort + " / " + b.sort)
	}
	if g.op == "not" {
		return c.Ite(g.args[0], b, a)
	}
	if a.op == "ite" && a.args[0] == g {
		a = a.args[1]
	}
	if b.op == "ite" && b.args[0] == g {
		b = b.args[2]
	}
	if a == b {
		return a
	}
	if a.sort == SBool {
		if a == c.True && b == c.False {
			return g
		}
		if a == c.False && b == c.True {
			return c.Not(g)
		}
		if a == c.True {
			return c.Or(g, b)
		}
		if b == c.False {
			return c.And(g, a)
		}
		if a == c.False {
			return c.And(c.Not(g), b)
		}
		if b == c.True {
			return c.Or(c.Not(g), a)
		}
	}
	return c.mk("ite", a.sort, g, a, b)
}

func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return c.True
	}
	if a.sort != b.sort {
		panic("eq sort clash " + a.sort + " / " + b.sort + " : " + c.String(a) + " = " + c.String(b))
	}
	if a.sort == SInt {
		d := c.linSub(a, b)
		if len(d.m) == 0 {
			return c.Bool(d.k.Sign() == 0)
		}
	}
	if a.sort == SBool {
		if a == c.True {
			return b
		}
		if b == c.True {
			return a
		}
		if a == c.False {
			return c.Not(b)
		}
		if b == c.False {
			return c.Not(a)
		}
	}
	if isLit(a) && isLit(b) {
		return c.False // distinct literals
	}
	if strings.HasPrefix(a.op, "mk:") && a.op == b.op {
		var es []*Term
		for i := range a.args {
			es = append(es, c.Eq(a.args[i], b.args[i]))
		}
		return c.And(es...)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk("=", SBool, a, b)
}

func isLit(t *Term) bool {
	return t.n != nil || strings.HasPrefix(t.op, "real:") || strings.HasPrefix(t.op, "str:")
}

// ---------------------------------------------------------------- integers

type lin struct {
	m map[*Term]*big.Int
	k *big.Int
}

func (c *Ctx) toLin(t *Term) lin {
	l := lin{map[*Term]*big.Int{}, new(big.Int)}
	c.addLin(&l, t, big.NewInt(1))
	return l
}

func (c *Ctx) addLin(l *lin, t *Term, f *big.Int) {
	switch {
	case t.n != nil:
		l.k.Add(l.k, new(big.Int).Mul(f, t.n))
	case t.op == "+":
		for _, a := range t.args {
			c.addLin(l, a, f)
		}
	case t.op == "*" && t.args[0].n != nil:
		c.addLin(l, t.args[1], new(big.Int).Mul(f, t.args[0].n))
	default:
		if old, ok := l.m[t]; ok {
			s := new(big.Int).Add(old, f)
			if s.Sign() == 0 {
				delete(l.m, t)
			} else {
				l.m[t] = s
			}
		} else if f.Sign() != 0 {
			l.m[t] = f
		}
	}
}

func (c *Ctx) fromLin(l lin) *Term {
	var ts []*Term
	for t := range l.m {
		ts = append(ts, t)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	var out []*Term
	for _, t := range ts {
		f := l.m[t]
		if f.IsInt64() && f.Int64() == 1 {
			out = append(out, t)
		} else {
			out = append(out, c.mk("*", SInt, c.BigInt(f), t))
		}
	}
	if l.k.Sign() != 0 || len(out) == 0 {
		out = append(out, c.BigInt(l.k))
	}
	if len(out) == 1 {
		return out[0]
	}
	return c.mk("+", SInt, out...)
}

func (c *Ctx) linSub(a, b *Term) lin {
	l := c.toLin(a)
	c.addLin(&l, b, big.NewInt(-1))
	return l
}

func (c *Ctx) Add(as ...*Term) *Term {
	l := lin{map[*Term]*big.Int{}, new(big.Int)}
	for _, a := range as {
		c.addLin(&l, a, big.NewInt(1))
	}
	return c.fromLin(l)
}
func (c *Ctx) Sub(a, b *Term) *Term { return c.fromLin(c.linSub(a, b)) }
func (c *Ctx) Neg(a *Term) *Term    { return c.Sub(c.Int(0), a) }
func (c *Ctx) Mul(a, b *Term) *Term {
	if a.n == nil && b.n != nil {
		a, b = b, a
	}
	if a.n != nil {
		l := lin{map[*Term]*big.Int{}, new(big.Int)}
		c.addLin(&l, b, a.n)
		return c.fromLin(l)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk("*", SInt, a, b)
}

// DivT is Go's truncated division.
func (c *Ctx) DivT(a, b *Term) *Term {
	if a.n != nil && b.n != nil && b.n.Sign() != 0 {
		return c.BigInt(new(big.Int).Quo(a.n, b.n))
	}
	lo, _, ok := c.interval(a)
	if b.n != nil && b.n.Sign() > 0 {
		if b.n.IsInt64() && b.n.Int64() == 1 {
			return a
		}
		if ok && lo.Sign() >= 0 {
			return c.mk("div", SInt, a, b)
		}
		return c.Ite(c.Le(c.Int(0), a), c.mk("div", SInt, a, b), c.Neg(c.mk("div", SInt, c.Neg(a), b)))
	}
	return c.App("go_quo", SInt, a, b)
}

func (c *Ctx) ModT(a, b *Term) *Term {
	if a.n != nil && b.n != nil && b.n.Sign() != 0 {
		return c.BigInt(new(big.Int).Rem(a.n, b.n))
	}
	lo, _, ok := c.interval(a)
	if b.n != nil && b.n.Sign() > 0 {
		if ok && lo.Sign() >= 0 {
			return c.mk("mod", SInt, a, b)
		}
		return c.Ite(c.Le(c.Int(0), a), c.mk("mod", SInt, a, b), c.Neg(c.mk("mod", SInt, c.Neg(a), b)))
	}
	return c.App("go_rem", SInt, a, b)
}

func (c *Ctx) EMod(a *Term, m *big.Int) *Term { // euclidean
	if a.n != nil {
		return c.BigInt(new(big.Int).Mod(a.n, m))
	}
	return c.mk("mod", SInt, a, c.BigInt(m))
}
func (c *Ctx) EDiv(a *Term, m *big.Int) *Term {
	if a.n != nil {
		q, _ := new(big.Int).DivMod(a.n, m, new(big.Int))
		return c.BigInt(q)
	}
	return c.mk("div", SInt, a, c.BigInt(m))
}

func (c *Ctx) Le(a, b *Term) *Term {
	if a.sort == SReal {
		if a == b {
			return c.True
		}
		return c.mk("<=", SBool, a, b)
	}
	d := c.linSub(b, a)
	if len(d.m) == 0 {
		return c.Bool(d.k.Sign() >= 0)
	}
	if lo, hi, ok := c.linInterval(d); ok {
		if lo != nil && lo.Sign() >= 0 {
			return c.True
		}
		if hi != nil && hi.Sign() < 0 {
			return c.False
		}
	}
	return c.mk("<=", SBool, a, b)
}
func (c *Ctx) Lt(a, b *Term) *Term {
	if a.sort == SReal {
		if a == b {
			return c.False
		}
		return c.mk("<", SBool, a, b)
	}
	d := c.linSub(b, a)
	if len(d.m) == 0 {
		return c.Bool(d.k.Sign() > 0)
	}
	if lo, hi, ok := c.linInterval(d); ok {
		if lo != nil && lo.Sign() > 0 {
			return c.True
		}
		if hi != nil && hi.Sign() <= 0 {
			return c.False
		}
	}
	return c.mk("<", SBool, a, b)
}

func (c *Ctx) linInterval(l lin) (lo, hi *big.Int, ok bool) {
	lo, hi = new(big.Int).Set(l.k), new(big.Int).Set(l.k)
	for t, f := range l.m {
		a, b, k := c.interval(t)
		if !k {
			return nil, nil, false
		}
		x, y := new(big.Int).Mul(a, f), new(big.Int).Mul(b, f)
		if x.Cmp(y) > 0 {
			x, y = y, x
		}
		lo.Add(lo, x)
		hi.Add(hi, y)
	}
	return lo, hi, true
}

func (c *Ctx) SetRange(t *Term, lo, hi *big.Int) {
	if t.n == nil {
		c.rng[t] = [2]*big.Int{lo, hi}
	}
}

func (c *Ctx) interval(t *Term) (lo, hi *big.Int, ok bool) { return c.interval0(t, 6) }
func (c *Ctx) interval0(t *Term, d int) (lo, hi *big.Int, ok bool) {
	if t.n != nil {
		return t.n, t.n, true
	}
	if r, k := c.rng[t]; k {
		return r[0], r[1], true
	}
	if d == 0 {
		return nil, nil, false
	}
	switch t.op {
	case "+":
		lo, hi = new(big.Int), new(big.Int)
		for _, a := range t.args {
			x, y, k := c.interval0(a, d-1)
			if !k {
				return nil, nil, false
			}
			lo = new(big.Int).Add(lo, x)
			hi = new(big.Int).Add(hi, y)
		}
		return lo, hi, true
	case "*":
		if t.args[0].n != nil {
			x, y, k := c.interval0(t.args[1], d-1)
			if !k {
				return nil, nil, false
			}
			a, b := new(big.Int).Mul(x, t.args[0].n), new(big.Int).Mul(y, t.args[0].n)
			if a.Cmp(b) > 0 {
				a, b = b, a
			}
			return a, b, true
		}
		x1, y1, k1 := c.interval0(t.args[0], d-1)
		x2, y2, k2 := c.interval0(t.args[1], d-1)
		if k1 && k2 && x1.Sign() >= 0 && x2.Sign() >= 0 {
			return new(big.Int).Mul(x1, x2), new(big.Int).Mul(y1, y2), true
		}
	case "ite":
		x1, y1, k1 := c.interval0(t.args[1], d-1)
		if !k1 {
			return nil, nil, false
		}
		x2, y2, k2 := c.interval0(t.args[2], d-1)
		if !k2 {
			return nil, nil, false
		}
		if x2.Cmp(x1) < 0 {
			x1 = x2
		}
		if y2.Cmp(y1) > 0 {
			y1 = y2
		}
		return x1, y1, true
	case "mod":
		if t.args[1].n != nil {
			m := t.args[1].n
			return big.NewInt(0), new(big.Int).Sub(m, big.NewInt(1)), true
		}
	case "div":
		if t.args[1].n != nil && t.args[1].n.Sign() > 0 {
			x, y, k := c.interval0(t.args[0], d-1)
			if k && x.Sign() >= 0 {
				return new(big.Int).Div(x, t.args[1].n), new(big.Int).Div(y, t.args[1].n), true
			}
		}
	case "acc:s_len", "acc:s_cap":
		return big.NewInt(0), maxLen, true
	case "acc:s_off":
		return big.NewInt(0), maxLen, true
	}
	return nil, nil, false
}

var maxLen = new(big.Int).Lsh(big.NewInt(1), 48)

// ---------------------------------------------------------------- arrays, datatypes

func arrParts(s string) (k, v string) {
	// "(Array K V)"
	s = s[len("(Array ") : len(s)-1]
	d := 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(':
			d++
		case ')':
			d--
		case ' ':
			if d == 0 {
				return s[:i], s[i+1:]
			}
		}
	}
	panic("bad array sort " + s)
}

// distinct reports whether a and b are syntactically known to differ.
func (c *Ctx) distinct(a, b *Term) bool {
	if a == b {
		return false
	}
	if a.sort == SInt {
		d := c.linSub(a, b)
		if len(d.m) == 0 {
			return d.k.Sign() != 0
		}
		lo, hi, ok := c.linInterval(d)
		if ok && (lo.Sign() > 0 || hi.Sign() < 0) {
			return true
		}
		return false
	}
	return isLit(a) && isLit(b)
}

func (c *Ctx) Select(a, i *Term) *Term {
	_, v := arrParts(a.sort)
	for {
		if a.op == "store" {
			if a.args[1] == i {
				return a.args[2]
			}
			if c.Eq(a.args[1], i) == c.True {
				return a.args[2]
			}
			if c.distinct(a.args[1], i) {
				a = a.args[0]
				continue
			}
		}
		if a.op == "constarr" {
			return a.args[0]
		}
		break
	}
	return c.mk("select", v, a, i)
}

func (c *Ctx) Store(a, i, v *Term) *Term {
	k, vs := arrParts(a.sort)
	if i.sort != k || v.sort != vs {
		panic(fmt.Sprintf("store sort clash %s [%s]=%s", a.sort, i.sort, v.sort))
	}
	if a.op == "store" && a.args[1] == i {
		a = a.args[0]
	}
	if v.op == "select" && v.args[0] == a && v.args[1] == i {
		return a
	}
	return c.mk("store", a.sort, a, i, v)
}

func (c *Ctx) ConstArr(srt string, v *Term) *Term { return c.mk("constarr", srt, v) }

func (c *Ctx) Mk(dt string, args ...*Term) *Term {
	d := c.dts[dt]
	if d == nil {
		panic("no datatype " + dt)
	}
	for i, a := range args {
		if a.sort != d.sorts[i] {
			panic(fmt.Sprintf("mk %s field %s: sort %s want %s", dt, d.fields[i], a.sort, d.sorts[i]))
		}
	}
	// eta: mk(acc0(x), acc1(x), ...) = x
	if len(args) > 0 && args[0].op == "acc:"+d.fields[0] {
		x := args[0].args[0]
		ok := true
		for i, a := range args {
			if a.op != "acc:"+d.fields[i] || a.args[0] != x {
				ok = false
				break
			}
		}
		if ok {
			return x
		}
	}
	return c.mk("mk:"+dt, dt, args...)
}

func (c *Ctx) Acc(t *Term, i int) *Term {
	d := c.dts[t.sort]
	if d == nil {
		panic("acc on non datatype " + t.sort)
	}
	if t.op == "mk:"+t.sort {
		return t.args[i]
	}
	if i == 1 && t.sort == SSlc && c.zeroOff[t] {
		return c.Int(0)
	}
	if t.op == "ite" {
		return c.Ite(t.args[0], c.Acc(t.args[1], i), c.Acc(t.args[2], i))
	}
	return c.mk("acc:"+d.fields[i], d.sorts[i], t)
}

func (c *Ctx) Upd(t *Term, i int, v *Term) *Term {
	d := c.dts[t.sort]
	args := make([]*Term, len(d.fields))
	for j := range d.fields {
		if j == i {
			args[j] = v
		} else {
			args[j] = c.Acc(t, j)
		}
	}
	return c.Mk(t.sort, args...)
}

// ---------------------------------------------------------------- quantifiers

func (c *Ctx) quant(q string, vars []*Term, body *Term, pats [][]*Term) *Term {
	if !body.bound {
		return body
	}
	// keep only variables occurring
	occ := map[*Term]bool{}
	c.walk(body, func(t *Term) { occ[t] = true })
	var vs []*Term
	for _, v := range vars {
		if occ[v] {
			vs = append(vs, v)
		}
	}
	if len(vs) == 0 {
		return body
	}
	body, pats = c.normPats(vs, body, pats)
	var sb strings.Builder
	sb.WriteString(q)
	for _, v := range vs {
		fmt.Fprintf(&sb, "|%d", v.id)
	}
	sb.WriteString("|B")
	fmt.Fprintf(&sb, "|%d", body.id)
	for _, p := range pats {
		sb.WriteString("|P")
		for _, x := range p {
			fmt.Fprintf(&sb, "|%d", x.id)
		}
	}
	k := sb.String()
	if t, ok := c.tab[k]; ok {
		return t
	}
	c.next++
	t := &Term{id: c.next, op: q, args: []*Term{body}, sort: SBool, vars: vs, pats: pats, size: body.size + 1}
	// bound if any other bound var free inside
	free := map[*Term]bool{}
	c.freeVars(body, map[*Term]bool{}, free)
	for _, v := range vs {
		delete(free, v)
	}
	t.bound = len(free) > 0
	c.tab[k] = t
	return t
}

// normPats rewrites the patterns of a quantifier into terms a matcher can meet in a normalised
// problem: indices become plain variables (by shifting the variable), and selections from stores
// and conditionals become alternatives over the arrays underneath.
func (c *Ctx) normPats(vs []*Term, body *Term, pats [][]*Term) (*Term, [][]*Term) {
	if len(pats) == 0 {
		return body, pats
	}
	for _, v := range vs {
		if v.sort != SInt {
			continue
		}
		plain := false
		var shift *Term
		for _, p := range pats {
			for _, x := range p {
				c.walk(x, func(t *Term) {
					if strings.Contains(t.op, "op$") || strings.Contains(t.op, "cnt$") {
						for _, a := range t.args {
							plain = plain || a == v
						}
					}
					if t.op != "select" || t.args[1].sort != SInt {
						return
					}
					if t.args[1] == v {
						plain = true
						return
					}
					if d := c.Sub(t.args[1], v); !d.bound && shift == nil && t.args[1].bound {
						shift = d
					}
				})
			}
		}
		if !plain && shift != nil {
			m := map[*Term]*Term{v: c.Sub(v, shift)}
			body = c.Subst(body, m)
			for i, p := range pats {
				np := make([]*Term, len(p))
				for k, x := range p {
					np[k] = c.Subst(x, m)
				}
				pats[i] = np
			}
		}
	}
	var out [][]*Term
	seen := map[string]bool{}
	for _, p := range pats {
		alts := [][]*Term{nil}
		for _, x := range p {
			ls := c.patLeaves(x)
			var na [][]*Term
			for _, a := range alts {
				for _, l := range ls {
					if len(na) < 12 {
						na = append(na, append(append([]*Term{}, a...), l))
					}
				}
			}
			alts = na
		}
		for _, a := range alts {
			occ := map[*Term]bool{}
			key := ""
			ok := true
			for _, x := range a {
				c.walk(x, func(t *Term) {
					occ[t] = true
					if !t.bound {
						return
					}
					switch t.op {
					case "ite", "and", "or", "not", "=", "<", "<=", "=>", "store":
						ok = false
					}
				})
				key += fmt.Sprintf("|%d", x.id)
			}
			for _, v := range vs {
				ok = ok && occ[v]
			}
			if ok && !seen[key] {
				seen[key] = true
				out = append(out, a)
			}
		}
	}
	return body, out
}

// patLeaves: the selections that remain of t once stores and conditionals are resolved.
func (c *Ctx) patLeaves(t *Term) []*Term {
	if t.op != "select" {
		if strings.HasPrefix(t.op, "acc:") && len(t.args) == 1 {
			var out []*Term
			for _, l := range c.patLeaves(t.args[0]) {
				out = append(out, c.rebuild(t, []*Term{l}))
			}
			return out
		}
		return []*Term{t}
	}
	var out []*Term
	seen := map[*Term]bool{}
	var arrs func(a *Term) []*Term
	arrs = func(a *Term) []*Term {
		switch a.op {
		case "store":
			return arrs(a.args[0])
		case "ite":
			return append(arrs(a.args[1]), arrs(a.args[2])...)
		case "select":
			var o []*Term
			for _, b := range arrs(a.args[0]) {
				if b.op == "constarr" {
					continue
				}
				o = append(o, c.Select(b, a.args[1]))
			}
			// rows stored into the outer array
			var rows func(x *Term)
			rows = func(x *Term) {
				switch x.op {
				case "store":
					o = append(o, arrs(x.args[2])...)
					rows(x.args[0])
				case "ite":
					rows(x.args[1])
					rows(x.args[2])
				}
			}
			rows(a.args[0])
			return o
		}
		return []*Term{a}
	}
	for _, a := range arrs(t.args[0]) {
		if a.op == "constarr" {
			continue
		}
		l := c.Select(a, t.args[1])
		if !seen[l] {
			seen[l] = true
			out = append(out, l)
		}
	}
	return out
}

func (c *Ctx) freeVars(t *Term, seen, out map[*Term]bool) {
	if !t.bound || seen[t] {
		return
	}
	seen[t] = true
	if strings.HasPrefix(t.op, "var:") {
		out[t] = true
		return
	}
	if t.vars != nil {
		in := map[*Term]bool{}
		c.freeVars(t.args[0], map[*Term]bool{}, in)
		for _, v := range t.vars {
			delete(in, v)
		}
		for v := range in {
			out[v] = true
		}
		return
	}
	for _, a := range t.args {
		c.freeVars(a, seen, out)
	}
}

func (c *Ctx) Forall(vars []*Term, body *Term, pats ...[]*Term) *Term {
	if body.op == "and" && len(pats) == 0 {
		var out []*Term
		for _, a := range body.args {
			out = append(out, c.Forall(vars, a))
		}
		return c.And(out...)
	}
	return c.quant("forall", vars, body, pats)
}
func (c *Ctx) Exists(vars []*Term, body *Term, pats ...[]*Term) *Term {
	return c.quant("exists", vars, body, pats)
}

func (c *Ctx) walk(t *Term, f func(*Term)) {
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		f(t)
		for _, a := range t.args {
			rec(a)
		}
	}
	rec(t)
}

// Subst replaces terms (constants or bound variables), rebuilding with simplification.
func (c *Ctx) Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if r, ok := memo[t]; ok {
			return r
		}
		var r *Term
		if len(t.args) == 0 {
			r = t
		} else {
			ch := false
			na := make([]*Term, len(t.args))
			for i, a := range t.args {
				na[i] = rec(a)
				if na[i] != a {
					ch = true
				}
			}
			if !ch {
				r = t
			} else if t.vars != nil {
				var ps [][]*Term
				for _, p := range t.pats {
					var q []*Term
					for _, x := range p {
						q = append(q, rec(x))
					}
					ps = append(ps, q)
				}
				r = c.quant(t.op, t.vars, na[0], ps)
			} else {
				r = c.rebuild(t, na)
			}
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

func (c *Ctx) rebuild(t *Term, a []*Term) *Term {
	switch t.op {
	case "not":
		return c.Not(a[0])
	case "and":
		return c.And(a...)
	case "or":
		return c.Or(a...)
	case "=>":
		return c.Imp(a[0], a[1])
	case "ite":
		return c.Ite(a[0], a[1], a[2])
	case "=":
		return c.Eq(a[0], a[1])
	case "<=":
		return c.Le(a[0], a[1])
	case "<":
		return c.Lt(a[0], a[1])
	case "+":
		if t.sort == SInt {
			return c.Add(a...)
		}
	case "*":
		if t.sort == SInt {
			return c.Mul(a[0], a[1])
		}
	case "select":
		return c.Select(a[0], a[1])
	case "store":
		return c.Store(a[0], a[1], a[2])
	case "forall", "exists":
		return c.quant(t.op, t.vars, a[0], nil)
	}
	if strings.HasPrefix(t.op, "mk:") {
		return c.Mk(t.sort, a...)
	}
	if strings.HasPrefix(t.op, "acc:") {
		d := c.dts[a[0].sort]
		for i, f := range d.fields {
			if "acc:"+f == t.op {
				return c.Acc(a[0], i)
			}
		}
	}
	return c.mk(t.op, t.sort, a...)
}

// ---------------------------------------------------------------- printing

func head(t *Term) string {
	switch {
	case strings.HasPrefix(t.op, "const:"):
		return "|" + t.op[6:] + "|"
	case strings.HasPrefix(t.op, "var:"):
		return "|" + t.op[4:] + "|"
	case strings.HasPrefix(t.op, "fn:"):
		return "|" + t.op[3:] + "|"
	case strings.HasPrefix(t.op, "int:"):
		s := t.op[4:]
		if s[0] == '-' {
			return "(- " + s[1:] + ")"
		}
		return s
	case strings.HasPrefix(t.op, "real:"):
		s := t.op[5:]
		neg := false
		if s[0] == '-' {
			neg = true
			s = s[1:]
		}
		if i := strings.IndexByte(s, '/'); i >= 0 {
			s = "(/ " + s[:i] + ".0 " + s[i+1:] + ".0)"
		} else {
			s += ".0"
		}
		if neg {
			s = "(- " + s + ")"
		}
		return s
	case strings.HasPrefix(t.op, "str:"):
		return smtStr(t.op[4:])
	case strings.HasPrefix(t.op, "mk:"):
		return "|mk_" + t.op[3:] + "|"
	case strings.HasPrefix(t.op, "acc:"):
		return "|" + t.op[4:] + "|"
	case t.op == "constarr":
		return "(as const " + t.sort + ")"
	case strings.HasPrefix(t.op, "real-"):
		return t.op[5:]
	}
	return t.op
}

func smtStr(s string) string {
	var sb strings.Builder
	sb.WriteByte('"')
	for _, r := range s {
		if r == '"' {
			sb.WriteString(`""`)
		} else if r == '\\' || r < 32 || r > 126 {
			fmt.Fprintf(&sb, "\\u{%x}", r)
		} else {
			sb.WriteRune(r)
		}
	}
	sb.WriteByte('"')
	return sb.String()
}

// String prints a tree (for diagnostics), bounded.
func (c *Ctx) String(t *Term) string {
	var sb strings.Builder
	c.tree(&sb, t, nil, 4000)
	return sb.String()
}

func (c *Ctx) tree(sb *strings.Builder, t *Term, named map[*Term]string, lim int) {
	if lim > 0 && sb.Len() > lim {
		sb.WriteString("...")
		return
	}
	if n, ok := named[t]; ok {
		sb.WriteString(n)
		return
	}
	if t.vars != nil {
		sb.WriteString("(" + t.op + " (")
		for _, v := range t.vars {
			sb.WriteString("(" + head(v) + " " + v.sort + ")")
		}
		sb.WriteString(") ")
		if len(t.pats) > 0 {
			sb.WriteString("(! ")
		}
		c.tree(sb, t.args[0], named, lim)
		for _, p := range t.pats {
			sb.WriteString(" :pattern (")
			for i, x := range p {
				if i > 0 {
					sb.WriteByte(' ')
				}
				c.tree(sb, x, named, lim)
			}
			sb.WriteString(")")
		}
		if len(t.pats) > 0 {
			sb.WriteString(")")
		}
		sb.WriteString(")")
		return
	}
	if len(t.args) == 0 {
		sb.WriteString(head(t))
		return
	}
	sb.WriteByte('(')
	sb.WriteString(head(t))
	for _, a := range t.args {
		sb.WriteByte(' ')
		c.tree(sb, a, named, lim)
	}
	sb.WriteByte(')')
}

// Script renders declarations + assertions, sharing subterms through define-fun.
type Script struct {
	c       *Ctx
	named   map[*Term]string
	declC   map[*Term]bool
	declF   map[string]bool
	declD   map[string]bool
	declS   map[string]bool
	sb      strings.Builder
	nextDef int
}

func NewScript(c *Ctx) *Script {
	s := &Script{c: c, named: map[*Term]string{}, declC: map[*Term]bool{}, declF: map[string]bool{}, declD: map[string]bool{}, declS: map[string]bool{}}
	return s
}

func (s *Script) declSort(srt string) {
	if s.declS[srt] {
		return
	}
	s.declS[srt] = true
	if strings.HasPrefix(srt, "(Array ") {
		k, v := arrParts(srt)
		s.declSort(k)
		s.declSort(v)
		return
	}
	if d, ok := s.c.dts[srt]; ok {
		for _, f := range d.sorts {
			s.declSort(f)
		}
		fmt.Fprintf(&s.sb, "(declare-datatypes ((%s 0)) (((|mk_%s|", srt, srt)
		for i, f := range d.fields {
			fmt.Fprintf(&s.sb, " (|%s| %s)", f, d.sorts[i])
		}
		s.sb.WriteString("))))\n")
		return
	}
	if s.c.sorts[srt] {
		fmt.Fprintf(&s.sb, "(declare-sort %s 0)\n", srt)
	}
}

// prepare declares symbols and defines shared non-bound subterms of ts.
func (s *Script) prepare(ts ...*Term) {
	refs := map[*Term]int{}
	var order []*Term
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		refs[t]++
		if seen[t] {
			return
		}
		seen[t] = true
		if _, ok := s.named[t]; ok {
			return
		}
		for _, a := range t.args {
			rec(a)
		}
		for _, v := range t.vars {
			s.declSort(v.sort)
		}
		for _, p := range t.pats {
			for _, x := range p {
				rec(x)
			}
		}
		order = append(order, t)
	}
	for _, t := range ts {
		rec(t)
	}
	for _, t := range order {
		s.declSort(t.sort)
		if strings.HasPrefix(t.op, "const:") {
			if !s.declC[t] {
				s.declC[t] = true
				fmt.Fprintf(&s.sb, "(declare-const |%s| %s)\n", t.op[6:], t.sort)
			}
			continue
		}
		if strings.HasPrefix(t.op, "fn:") {
			n := t.op[3:]
			if !s.declF[n] {
				s.declF[n] = true
				for _, a := range t.args {
					s.declSort(a.sort)
				}
				fmt.Fprintf(&s.sb, "(declare-fun |%s| %s)\n", n, s.c.funs[n])
			}
		}
		if !t.bound && len(t.args) > 0 && (refs[t] > 1) && t.size > 4 {
			s.nextDef++
			nm := fmt.Sprintf("$t%d", s.nextDef)
			fmt.Fprintf(&s.sb, "(define-fun %s () %s ", nm, t.sort)
			s.c.tree(&s.sb, t, s.named, 0)
			s.sb.WriteString(")\n")
			s.named[t] = nm
		}
	}
}

func (s *Script) Assert(t *Term) {
	s.prepare(t)
	s.sb.WriteString("(assert ")
	s.c.tree(&s.sb, t, s.named, 0)
	s.sb.WriteString(")\n")
}

func (s *Script) Raw(x string) { s.sb.WriteString(x) }
