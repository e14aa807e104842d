package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- helpers shared by the property clients ----

// isNilT tells whether t is known nil (1), known non-nil (-1) or neither (0).
func isNilT(st *State, t *Term) int {
	if t.isNil() {
		return 1
	}
	return st.truth(mkEq(t, mkNil()))
}

// errOf returns the error among the results (the last one of error type).
func errOf(fn *ssa.Function, vals []*Term) *Term {
	r := fn.Signature.Results()
	for i := r.Len() - 1; i >= 0; i-- {
		if isError(r.At(i).Type()) && i < len(vals) {
			return vals[i]
		}
	}
	return nil
}

// succeeds reports whether the outcome may be a success: 1 certainly, -1
// certainly not, 0 unknown. Functions without an error result succeed.
func succeeds(st *State, fn *ssa.Function, vals []*Term) int {
	e := errOf(fn, vals)
	if e == nil {
		return 1
	}
	return isNilT(st, e)
}

// withMods returns st extended with the ranges of the % terms in t.
func withMods(st *State, ts ...*Term) *State {
	var atoms []*Term
	for _, t := range ts {
		t.walk(func(x *Term) {
			if x.op == OBin && (x.name == "%" || x.name == "&") {
				atoms = append(atoms, x)
			}
		})
	}
	if len(atoms) == 0 {
		return st
	}
	s := st.clone()
	sortTerms(atoms) // inner ones have smaller ids
	for _, a := range atoms {
		m, ok := a.args[1].intVal()
		if !ok || m <= 0 {
			continue
		}
		nn := s.truth(mkLe(mkInt(0), a.args[0])) == 1
		if a.name == "&" {
			s.facts[mkLe(mkInt(0), a)] = true
			s.facts[mkLe(a, mkInt(m))] = true
			continue
		}
		s.facts[mkLe(a, mkInt(m-1))] = true
		if nn {
			s.facts[mkLe(mkInt(0), a)] = true
		} else {
			s.facts[mkLe(mkInt(-(m-1)), a)] = true
		}
	}
	return s
}

// inRange proves lo <= t <= hi.
func inRange(st *State, t *Term, lo, hi int64) bool {
	s := withMods(st, t)
	return s.truth(mkLe(mkInt(lo), t)) == 1 && s.truth(mkLe(t, mkInt(hi))) == 1
}

// modLinear writes t as a linear form modulo m (% by a multiple of m is
// transparent, and so is adding multiples of m).
func modLinear(t *Term, m int64) (map[*Term]int64, int64) {
	norm := func(v int64) int64 { return ((v % m) + m) % m }
	l := lin(t)
	co := map[*Term]int64{}
	c := norm(l.c)
	for a, k := range l.atoms {
		if a.op == OBin && a.name == "%" {
			if n, ok := a.args[1].intVal(); ok && n > 0 && n%m == 0 {
				ic, cc := modLinear(a.args[0], m)
				for x, kk := range ic {
					co[x] = norm(co[x] + k*kk)
				}
				c = norm(c + k*cc)
				continue
			}
		}
		co[a] = norm(co[a] + k)
	}
	for a, k := range co {
		if k == 0 {
			delete(co, a)
		}
	}
	return co, c
}

// intRange is the value range of an integer type.
func intRange(t types.Type) (lo, hi constant.Value, ok bool) {
	b, k := t.Underlying().(*types.Basic)
	if !k {
		return nil, nil, false
	}
	bits, signed := uint(0), true
	switch b.Kind() {
	case types.Int8:
		bits = 8
	case types.Int16:
		bits = 16
	case types.Int32, types.UntypedRune:
		bits = 32
	case types.Int, types.Int64:
		bits = 64
	case types.Uint8:
		bits, signed = 8, false
	case types.Uint16:
		bits, signed = 16, false
	case types.Uint32:
		bits, signed = 32, false
	case types.Uint, types.Uint64, types.Uintptr:
		bits, signed = 64, false
	default:
		return nil, nil, false
	}
	one := constant.MakeInt64(1)
	if signed {
		h := constant.Shift(one, token.SHL, bits-1)
		return constant.UnaryOp(token.SUB, h, 0), constant.BinaryOp(h, token.SUB, one), true
	}
	return constant.MakeInt64(0), constant.BinaryOp(constant.Shift(one, token.SHL, bits), token.SUB, one), true
}

// fitsType proves that the mathematical value t is representable in typ.
func fitsType(st *State, t *Term, typ types.Type) bool {
	lo, hi, ok := intRange(typ)
	if !ok {
		return false
	}
	l, ok1 := constant.Int64Val(lo)
	h, ok2 := constant.Int64Val(hi)
	if !ok1 || !ok2 {
		return true
	}
	if h > 1<<60 {
		h = 1 << 60
	}
	if l < -1<<60 {
		l = -1 << 60
	}
	return inRange(st, t, l, h)
}

// fullName of the called function: "pkgpath.Name" or "(recv).Name".
func (c *Call) full() string {
	if c.Fn != nil {
		return c.Fn.String()
	}
	return c.Name
}

// modFn tells whether the call's static callee is the named module function
// ("Type.Method" or "Func") of the package rel.
func (p *Program) isFn(f *ssa.Function, rel, name string) bool {
	if f == nil {
		return false
	}
	g := p.Func(rel, name)
	return g != nil && g == f
}

func (c *Ctx) fn(rel, name string) *ssa.Function {
	f := c.P.Func(rel, name)
	if f == nil || len(f.Blocks) == 0 {
		c.Undecided("anchor:"+name, token.NoPos, "function %s not found in package %q", name, rel)
		return nil
	}
	return f
}

// fieldOf returns the address term of a field by name.
func fieldOf(base *Term, name string) *Term {
	st := structOf(base.typ)
	if st == nil {
		return nil
	}
	i := fieldIndex(st, name)
	if i < 0 {
		return nil
	}
	return mkField(base, pointee(base), i)
}

// fieldName names the field an address term denotes ("Key.Used"), or "".
func fieldName(a *Term) string {
	if a == nil {
		return ""
	}
	f := a.field()
	if f == nil {
		return ""
	}
	n := namedOf(f.st)
	nm := "?"
	if n != nil {
		nm = n.Obj().Name()
	}
	return nm + "." + f.st.Underlying().(*types.Struct).Field(f.idx).Name()
}

func typeIs(t types.Type, rel, name string) bool {
	if t == nil {
		return false
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		if _, isN := t.(*types.Named); !isN {
			t = p.Elem()
		}
	}
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	want := modPath
	if rel != "" {
		want += "/" + rel
	}
	return n.Obj().Name() == name && n.Obj().Pkg().Path() == want
}

func calleeOf(in ssa.Instruction) *ssa.Function {
	if c, ok := in.(ssa.CallInstruction); ok {
		return c.Common().StaticCallee()
	}
	return nil
}

// sites lists every call instruction of the module with its static callee's
// full name (interface calls as "invoke:(T).M").
func (p *Program) eachCall(f func(in ssa.CallInstruction, fn *ssa.Function, name string)) {
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cc := c.Common()
				name := ""
				if cc.IsInvoke() {
					name = "invoke:(" + typeName(cc.Value.Type()) + ")." + cc.Method.Name()
				} else if s := cc.StaticCallee(); s != nil {
					name = s.String()
				} else if b, ok := cc.Value.(*ssa.Builtin); ok {
					name = "builtin:" + b.Name()
				}
				f(c, fn, name)
			}
		}
	}
}

func constInt(v ssa.Value) (int64, bool) {
	for {
		switch x := v.(type) {
		case *ssa.Const:
			if x.Value == nil {
				return 0, false
			}
			return constant.Int64Val(constant.ToInt(x.Value))
		case *ssa.Convert:
			v = x.X
			continue
		case *ssa.ChangeType:
			v = x.X
			continue
		}
		return 0, false
	}
}

func hasPrefixAny(s string, p ...string) bool {
	for _, x := range p {
		if strings.HasPrefix(s, x) {
			return true
		}
	}
	return false
}

// isWhole: the index that stands for every element (not just those a loop has
// visited so far).
func (x *Term) isWhole() bool { return x.op == OAll && x.name == "" }
