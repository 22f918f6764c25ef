package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"
)

// ---------------------------------------------------------------- Go types -> SMT sorts

// pkgAlias: package path -> name used in contracts and keys
var pkgAlias = map[string]string{}

func pname(p *types.Package) string {
	if a, ok := pkgAlias[p.Path()]; ok {
		return a
	}
	return p.Name()
}

func typeKey(t types.Type) string {
	return types.TypeString(canonType(t), pname)
}

var emptyInterface = types.NewInterfaceType(nil, nil)

// canonType removes aliases, so that identical types have one key.
func canonType(t types.Type) types.Type {
	t = types.Unalias(t)
	switch u := t.(type) {
	case *types.Pointer:
		if e := canonType(u.Elem()); e != u.Elem() {
			return types.NewPointer(e)
		}
	case *types.Slice:
		if e := canonType(u.Elem()); e != u.Elem() {
			return types.NewSlice(e)
		}
	case *types.Array:
		if e := canonType(u.Elem()); e != u.Elem() {
			return types.NewArray(e, u.Len())
		}
	case *types.Chan:
		if e := canonType(u.Elem()); e != u.Elem() {
			return types.NewChan(u.Dir(), e)
		}
	case *types.Map:
		k, e := canonType(u.Key()), canonType(u.Elem())
		if k != u.Key() || e != u.Elem() {
			return types.NewMap(k, e)
		}
	case *types.Interface:
		if u.Empty() && u.NumEmbeddeds() == 0 {
			return emptyInterface
		}
	}
	return t
}

func (j *Job) sortOf(t types.Type) string {
	t = types.Unalias(t)
	if k, ok := j.sortMemo[t]; ok {
		return k
	}
	s := j.sortOf0(t)
	j.sortMemo[t] = s
	return s
}

func (j *Job) sortOf0(t types.Type) string {
	switch u := t.(type) {
	case *types.TypeParam:
		n := "U_" + sanitize(u.Obj().Name())
		j.c.DeclSort(n)
		return n
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return SBool
		case u.Info()&types.IsInteger != 0:
			return SInt
		case u.Info()&types.IsFloat != 0:
			return SReal
		case u.Info()&types.IsString != 0:
			return SStr
		}
		return SInt
	case *types.Slice:
		return SSlc
	case *types.Array:
		return SArr(SInt, j.sortOf(u.Elem()))
	case *types.Struct:
		return j.structSort(t, u)
	case *types.Tuple:
		return "TUPLE"
	}
	return SInt
}

func (j *Job) structSort(t types.Type, u *types.Struct) string {
	name := "D_" + sanitize(typeKey(t))
	if len(name) > 60 {
		name = fmt.Sprintf("D_%s_%d", sanitize(typeKey(t))[:40], u.NumFields())
	}
	if _, ok := j.c.dts[name]; ok {
		return name
	}
	var fs, ss []string
	for i := 0; i < u.NumFields(); i++ {
		fs = append(fs, fmt.Sprintf("%s.%d%s", name, i, sanitize(u.Field(i).Name())))
		ss = append(ss, j.sortOf(u.Field(i).Type()))
	}
	j.c.Datatype(name, fs, ss)
	return name
}

func isRef(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan:
		return true
	}
	return false
}

func isTypeParam(t types.Type) bool { _, ok := types.Unalias(t).(*types.TypeParam); return ok }

func intInfo(t types.Type) (bits int, signed bool, ok bool) {
	b, k := t.Underlying().(*types.Basic)
	if !k || b.Info()&types.IsInteger == 0 {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt, types.UntypedRune:
		return 64, true, true
	case types.Int32:
		return 32, true, true
	case types.Int16:
		return 16, true, true
	case types.Int8:
		return 8, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint8:
		return 8, false, true
	}
	return 0, false, false
}

func intRange(bits int, signed bool) (lo, hi *big.Int) {
	one := big.NewInt(1)
	if signed {
		hi = new(big.Int).Sub(new(big.Int).Lsh(one, uint(bits-1)), one)
		lo = new(big.Int).Neg(new(big.Int).Lsh(one, uint(bits-1)))
		return
	}
	return big.NewInt(0), new(big.Int).Sub(new(big.Int).Lsh(one, uint(bits)), one)
}

// wrap reduces a mathematical integer to the machine type; few says at most one wrap is possible.
func (j *Job) wrap(t *Term, typ types.Type, few bool) *Term {
	bits, signed, ok := intInfo(typ)
	if !ok {
		return t
	}
	c := j.c
	lo, hi := intRange(bits, signed)
	if a, b, k := c.interval(t); k && a.Cmp(lo) >= 0 && b.Cmp(hi) <= 0 {
		return t
	}
	m := new(big.Int).Lsh(big.NewInt(1), uint(bits))
	if t.n != nil {
		r := new(big.Int).Mod(t.n, m)
		if r.Cmp(hi) > 0 {
			r.Sub(r, m)
		}
		return c.BigInt(r)
	}
	if few {
		above := c.Lt(c.BigInt(hi), t)
		below := c.Lt(t, c.BigInt(lo))
		r := c.Ite(above, c.Sub(t, c.BigInt(m)), c.Ite(below, c.Add(t, c.BigInt(m)), t))
		c.SetRange(r, lo, hi)
		return r
	}
	if !signed {
		return c.EMod(t, m)
	}
	h := new(big.Int).Lsh(big.NewInt(1), uint(bits-1))
	r := c.Sub(c.EMod(c.Add(t, c.BigInt(h)), m), c.BigInt(h))
	return r
}

func (j *Job) zero(t types.Type) *Term {
	c := j.c
	s := j.sortOf(t)
	switch s {
	case SInt:
		return c.Int(0)
	case SBool:
		return c.False
	case SReal:
		return c.RealRat(new(big.Rat))
	case SStr:
		return c.Str("")
	case SSlc:
		z := c.Int(0)
		return c.Mk(SSlc, z, z, z, z)
	}
	if strings.HasPrefix(s, "(Array") {
		return c.ConstArr(s, j.zero(t.Underlying().(*types.Array).Elem()))
	}
	if u, ok := t.Underlying().(*types.Struct); ok && !isTypeParam(t) {
		var as []*Term
		for i := 0; i < u.NumFields(); i++ {
			as = append(as, j.zero(u.Field(i).Type()))
		}
		return c.Mk(s, as...)
	}
	return c.Const("zero_"+s, s)
}

// ---------------------------------------------------------------- component names

func structName(t types.Type) string { return typeKey(t) }

func fieldComp(t types.Type, f string) string { return "F:" + structName(t) + "." + f }
func elemComp(t types.Type) string           { return "A:" + typeKey(t) }
func cellComp(t types.Type) string           { return "C:" + typeKey(t) }
func mapKey(m *types.Map) string             { return typeKey(m.Key()) + "," + typeKey(m.Elem()) }

// compSort remembers the sort of a heap component.
func (j *Job) regComp(name, srt string) string {
	if s, ok := j.compSort[name]; ok {
		if s != srt {
			panic("component sort clash " + name + " " + s + " vs " + srt)
		}
	} else {
		j.compSort[name] = srt
	}
	return name
}

func (j *Job) get(st *State, comp, srt string) *Term {
	j.regComp(comp, srt)
	if t, ok := st.heap[comp]; ok {
		return t
	}
	return j.c.Const(comp+"@0", srt)
}

func (j *Job) set(st *State, comp string, t *Term) { st.heap[comp] = t }

func (j *Job) fieldSort(ft types.Type) string { return SArr(SInt, j.sortOf(ft)) }
func (j *Job) elemArr(et types.Type) string   { return SArr(SInt, SArr(SInt, j.sortOf(et))) }
