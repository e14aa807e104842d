package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Terms are the abstract values of the analysis: hash-consed expressions over
// constants, allocation sites and symbols ("the value this construct yields").
type Op int

const (
	OConst    Op = iota // constant; cv holds the value (nil cv = Go nil)
	OSym                // unknown value, named by the construct that makes it
	OInit               // value the memory at args[0] had when the analysis began
	OGlobal             // address of a package-level variable
	OFunc               // function value
	OClosure            // function value with bindings
	OAlloc              // address of an allocated variable
	OMake               // freshly made slice, map or channel
	OField              // address of a field of *args[0]
	OIndex              // address of element args[1] of slice or array address args[0]
	OFieldVal           // field of a struct value
	OStruct             // struct value
	OTuple              // multiple results
	OLin                // linear integer expression
	OBin                // other binary operation
	OUn                 // other unary operation
	OConv               // conversion
	OLen                // len
	OCap                // cap
	OSlice              // slicing: args base, lo, hi, max
	OIface              // interface made from a concrete value
	OEq                 // a == b (non-integer)
	OLe0                // linear <= 0
	OEq0                // linear == 0
	ONot                // boolean negation
	OCall               // result of a deterministic, read-only function
	OTag                // event marker, used by the clients
	OAll                // universally quantified index
)

type Term struct {
	id   int
	op   Op
	name string
	args []*Term
	typ  types.Type
	cv   constant.Value
	obj  any // *ssa.Function, *ssa.Global, *SymInfo …
	syms bool
}

// SymInfo says where a symbol comes from.
type SymInfo struct {
	Kind  string // "param", "call", "load", "phi", ...
	What  string // callee name, parameter name …
	Idx   int    // result index
	Args  []*Term
	Pos   token.Pos
	Loops []string // loop instances active when the symbol was created
}

var (
	internTab = map[string]*Term{}
	termList  []*Term
)

func resetTerms() {
	internTab = map[string]*Term{}
	termList = nil
}

func intern(op Op, name string, typ types.Type, args ...*Term) *Term {
	var b strings.Builder
	b.WriteString(strconv.Itoa(int(op)))
	b.WriteByte('|')
	b.WriteString(name)
	for _, a := range args {
		b.WriteByte('|')
		b.WriteString(strconv.Itoa(a.id))
	}
	k := b.String()
	if t, ok := internTab[k]; ok {
		if t.typ == nil && typ != nil {
			t.typ = typ
		}
		return t
	}
	t := &Term{id: len(termList), op: op, name: name, args: append([]*Term(nil), args...), typ: typ}
	switch op {
	case OSym, OInit, OAlloc, OMake, OAll:
		t.syms = true
	}
	for _, a := range args {
		if a.syms {
			t.syms = true
		}
	}
	internTab[k] = t
	termList = append(termList, t)
	return t
}

func mkConst(v constant.Value, typ types.Type) *Term {
	var name string
	if v == nil {
		name = "nil"
	} else {
		switch v.Kind() {
		case constant.Int, constant.Float:
			if i, ok := constant.Int64Val(constant.ToInt(v)); ok && constant.ToInt(v).Kind() == constant.Int && !isFloat(typ) {
				name = "i" + strconv.FormatInt(i, 10)
			} else {
				name = "n" + v.ExactString()
			}
		default:
			name = v.Kind().String() + ":" + v.ExactString()
		}
	}
	t := intern(OConst, name, typ)
	t.cv = v
	return t
}

func isFloat(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func isInt(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func isBool(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func isString(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isSlice(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Slice)
	return ok
}

func isPtr(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Pointer)
	return ok
}

func isIface(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Interface)
	return ok
}

var tInt = types.Typ[types.Int]
var tBool = types.Typ[types.Bool]

func mkInt(i int64) *Term { return mkConst(constant.MakeInt64(i), tInt) }
func mkBool(b bool) *Term { return mkConst(constant.MakeBool(b), tBool) }
func mkNil() *Term        { return mkConst(nil, nil) }

func (t *Term) isNil() bool { return t.op == OConst && t.cv == nil }
func (t *Term) intVal() (int64, bool) {
	if t.op == OConst && t.cv != nil && t.cv.Kind() == constant.Int {
		return constant.Int64Val(t.cv)
	}
	return 0, false
}
func (t *Term) boolVal() (bool, bool) {
	if t.op == OConst && t.cv != nil && t.cv.Kind() == constant.Bool {
		return constant.BoolVal(t.cv), true
	}
	return false, false
}
func (t *Term) strVal() (string, bool) {
	if t.op == OConst && t.cv != nil && t.cv.Kind() == constant.String {
		return constant.StringVal(t.cv), true
	}
	return "", false
}

func (t *Term) info() *SymInfo {
	if i, ok := t.obj.(*SymInfo); ok {
		return i
	}
	return nil
}

func mkSym(op Op, name string, typ types.Type, info *SymInfo) *Term {
	t := intern(op, name, typ)
	if t.obj == nil {
		t.obj = info
	}
	return t
}

func mkInit(addr *Term, typ types.Type) *Term { return intern(OInit, "", typ, addr) }

func mkGlobal(g *ssa.Global) *Term {
	t := intern(OGlobal, g.String(), g.Type())
	t.obj = g
	return t
}

func mkFunc(f *ssa.Function) *Term {
	t := intern(OFunc, f.String()+fmt.Sprint(f.Pos()), f.Signature)
	t.obj = f
	return t
}

func mkClosure(f *ssa.Function, b []*Term) *Term {
	t := intern(OClosure, f.String()+fmt.Sprint(f.Pos()), f.Signature, b...)
	t.obj = f
	return t
}

func structOf(t types.Type) *types.Struct {
	if t == nil {
		return nil
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, _ := t.Underlying().(*types.Struct)
	return s
}

func namedOf(t types.Type) *types.Named {
	if t == nil {
		return nil
	}
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	if a, ok := t.(*types.Alias); ok {
		t = types.Unalias(a)
	}
	n, _ := t.(*types.Named)
	return n
}

// mkField makes the address of field i of the struct (type st) at base.
func mkField(base *Term, st types.Type, i int) *Term {
	s, _ := st.Underlying().(*types.Struct)
	name := types.TypeString(st, nil) + "#" + s.Field(i).Name()
	t := intern(OField, name, types.NewPointer(s.Field(i).Type()), base)
	if t.obj == nil {
		t.obj = &fieldRef{st: st, idx: i, name: s.Field(i).Name()}
	}
	return t
}

type fieldRef struct {
	st   types.Type
	idx  int
	name string
}

func (t *Term) field() *fieldRef {
	f, _ := t.obj.(*fieldRef)
	return f
}

func elemType(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Pointer:
		if a, ok := u.Elem().Underlying().(*types.Array); ok {
			return a.Elem()
		}
		return u.Elem()
	}
	return nil
}

func mkIndex(base, idx *Term, elem types.Type) *Term {
	// Indexing a full-prefix slice of something is indexing that something.
	for base.op == OSlice {
		lo := base.args[1]
		if lo.isNil() {
			base = base.args[0]
			continue
		}
		if v, ok := lo.intVal(); ok && v == 0 {
			base = base.args[0]
			continue
		}
		if isInt(lo.typ) || lo.op == OLin {
			idx = linAdd(idx, lo)
			base = base.args[0]
			continue
		}
		break
	}
	var pt types.Type
	if elem != nil {
		pt = types.NewPointer(elem)
	}
	return intern(OIndex, "", pt, base, idx)
}

func mkStruct(st types.Type, fields []*Term) *Term {
	return intern(OStruct, types.TypeString(st, nil), st, fields...)
}

func mkTuple(ts []*Term) *Term { return intern(OTuple, "", nil, ts...) }

func mkFieldVal(v *Term, st types.Type, i int) *Term {
	if v.op == OStruct && i < len(v.args) {
		return v.args[i]
	}
	s := st.Underlying().(*types.Struct)
	t := intern(OFieldVal, s.Field(i).Name(), s.Field(i).Type(), v)
	return t
}

// constLen: lists whose length is known.
var constLen = map[*Term]int64{}

func mkLen(x *Term) *Term {
	if n, ok := constLen[x]; ok {
		return mkInt(n)
	}
	switch x.op {
	case OConst:
		if x.isNil() {
			return mkInt(0)
		}
		if s, ok := x.strVal(); ok {
			return mkInt(int64(len(s)))
		}
	case OMake:
		// make([]T, n): args[0] is the length
		if len(x.args) > 0 && isSlice(x.typ) {
			return x.args[0]
		}
	case OSlice:
		base, lo, hi := x.args[0], x.args[1], x.args[2]
		if lo.isNil() {
			lo = mkInt(0)
		}
		if hi.isNil() {
			if a := arrayLen(base.typ); a >= 0 {
				hi = mkInt(a)
			} else {
				hi = mkLen(base)
			}
		}
		return linSub(hi, lo)
	}
	if a := arrayLen(x.typ); a >= 0 {
		return mkInt(a)
	}
	return intern(OLen, "", tInt, x)
}

// arrayLen returns the length of an array (or pointer to array) type, or -1.
func arrayLen(t types.Type) int64 {
	if t == nil {
		return -1
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if a, ok := t.Underlying().(*types.Array); ok {
		return a.Len()
	}
	return -1
}

// ---- linear integer expressions ----

type linear struct {
	c     int64
	atoms map[*Term]int64
}

func lin(t *Term) linear {
	if v, ok := t.intVal(); ok {
		return linear{c: v}
	}
	if t.op == OLin {
		l := linear{atoms: map[*Term]int64{}}
		parts := strings.Split(t.name, ",")
		l.c, _ = strconv.ParseInt(parts[0], 10, 64)
		for i, a := range t.args {
			l.atoms[a], _ = strconv.ParseInt(parts[i+1], 10, 64)
		}
		return l
	}
	return linear{atoms: map[*Term]int64{t: 1}}
}

func (l linear) term() *Term {
	var as []*Term
	for a, k := range l.atoms {
		if k != 0 {
			as = append(as, a)
		}
	}
	if len(as) == 0 {
		return mkInt(l.c)
	}
	if len(as) == 1 && l.c == 0 && l.atoms[as[0]] == 1 {
		return as[0]
	}
	sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
	name := strconv.FormatInt(l.c, 10)
	for _, a := range as {
		name += "," + strconv.FormatInt(l.atoms[a], 10)
	}
	return intern(OLin, name, tInt, as...)
}

func (l linear) add(m linear, k int64) linear {
	r := linear{c: l.c + k*m.c, atoms: map[*Term]int64{}}
	for a, v := range l.atoms {
		r.atoms[a] = v
	}
	for a, v := range m.atoms {
		r.atoms[a] += k * v
		if r.atoms[a] == 0 {
			delete(r.atoms, a)
		}
	}
	return r
}

func (l linear) scale(k int64) linear {
	r := linear{c: l.c * k, atoms: map[*Term]int64{}}
	if k == 0 {
		return r
	}
	for a, v := range l.atoms {
		r.atoms[a] = v * k
	}
	return r
}

func linAdd(a, b *Term) *Term { return lin(a).add(lin(b), 1).term() }
func linSub(a, b *Term) *Term { return lin(a).add(lin(b), -1).term() }

// mkLe0 is the boolean term "d <= 0".
func mkLe0(d *Term) *Term {
	l := lin(d)
	if len(l.atoms) == 0 {
		return mkBool(l.c <= 0)
	}
	return intern(OLe0, "", tBool, l.term())
}

func mkLe(a, b *Term) *Term { return mkLe0(linSub(a, b)) }
func mkLt(a, b *Term) *Term {
	l := lin(a).add(lin(b), -1)
	l.c++
	return mkLe0(l.term())
}

func mkEqInt(a, b *Term) *Term {
	l := lin(a).add(lin(b), -1)
	if len(l.atoms) == 0 {
		return mkBool(l.c == 0)
	}
	// canonical sign: smallest-id atom positive
	var first *Term
	for a := range l.atoms {
		if first == nil || a.id < first.id {
			first = a
		}
	}
	if l.atoms[first] < 0 {
		l = l.scale(-1)
	}
	return intern(OEq0, "", tBool, l.term())
}

func mkNot(t *Term) *Term {
	if b, ok := t.boolVal(); ok {
		return mkBool(!b)
	}
	if t.op == ONot {
		return t.args[0]
	}
	if t.op == OLe0 {
		// not (d <= 0)  ==  1-d <= 0
		l := lin(t.args[0]).scale(-1)
		l.c++
		return mkLe0(l.term())
	}
	return intern(ONot, "", tBool, t)
}

func (t *Term) nonNil() bool {
	switch t.op {
	case OAlloc, OMake, OField, OIndex, OGlobal, OClosure, OFunc, OIface, OStruct:
		return true
	case OSlice:
		return t.args[0].op == OAlloc || t.args[0].nonNil()
	case OConv:
		return isSlice(t.typ)
	case OInit:
		// package-level error values are never nil
		if t.args[0].op == OGlobal && isIface(t.typ) {
			return true
		}
	}
	return false
}

func mkEq(a, b *Term) *Term {
	if a == b {
		return mkBool(true)
	}
	if isInt(a.typ) || isInt(b.typ) || a.op == OLin || b.op == OLin {
		return mkEqInt(a, b)
	}
	if a.op == OConst && b.op == OConst {
		if a.isNil() || b.isNil() {
			return mkBool(a.isNil() && b.isNil())
		}
		if a.cv.Kind() == b.cv.Kind() {
			return mkBool(constant.Compare(a.cv, token.EQL, b.cv))
		}
	}
	if isBool(a.typ) || isBool(b.typ) {
		if v, ok := a.boolVal(); ok {
			a, b = b, mkBool(v)
		}
		if v, ok := b.boolVal(); ok {
			if v {
				return a
			}
			return mkNot(a)
		}
	}
	if a.isNil() && b.nonNil() || b.isNil() && a.nonNil() {
		return mkBool(false)
	}
	if a.op == OIface && b.op == OIface {
		if distinctObj(a.args[0], b.args[0]) {
			return mkBool(false)
		}
	}
	if distinctObj(a, b) {
		return mkBool(false)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return intern(OEq, "", tBool, a, b)
}

// distinctObj: two addresses that certainly differ.
func distinctObj(a, b *Term) bool {
	root := func(t *Term) bool { return t.op == OAlloc || t.op == OGlobal }
	if root(a) && root(b) && a != b {
		return true
	}
	return false
}

func mkTag(name string, args ...*Term) *Term { return intern(OTag, name, nil, args...) }

// ---- substitution ----

type subst struct {
	m    map[*Term]*Term
	memo map[*Term]*Term
}

func newSubst(m map[*Term]*Term) *subst { return &subst{m: m, memo: map[*Term]*Term{}} }

func (s *subst) apply(t *Term) *Term {
	if t == nil {
		return nil
	}
	if r, ok := s.m[t]; ok {
		return r
	}
	if len(t.args) == 0 || !t.syms {
		return t
	}
	if r, ok := s.memo[t]; ok {
		return r
	}
	changed := false
	args := make([]*Term, len(t.args))
	for i, a := range t.args {
		args[i] = s.apply(a)
		if args[i] != a {
			changed = true
		}
	}
	r := t
	if changed {
		r = rebuild(t, args)
	}
	s.memo[t] = r
	return r
}

func rebuild(t *Term, args []*Term) *Term {
	switch t.op {
	case OLin:
		l := lin(t)
		r := linear{c: l.c, atoms: map[*Term]int64{}}
		for i, a := range t.args {
			r = r.add(lin(args[i]), l.atoms[a])
		}
		return r.term()
	case OLe0:
		return mkLe0(args[0])
	case OEq0:
		return mkEqInt(args[0], mkInt(0))
	case OEq:
		return mkEq(args[0], args[1])
	case ONot:
		return mkNot(args[0])
	case OLen:
		return mkLen(args[0])
	case OIndex:
		var et types.Type
		if t.typ != nil {
			et = t.typ.(*types.Pointer).Elem()
		}
		return mkIndex(args[0], args[1], et)
	case OFieldVal:
		if args[0].op == OStruct {
			if s := structOf(args[0].typ); s != nil {
				if i := fieldIndex(s, t.name); i >= 0 {
					return args[0].args[i]
				}
			}
		}
	}
	r := intern(t.op, t.name, t.typ, args...)
	if r.obj == nil {
		r.obj = t.obj
	}
	r.cv = t.cv
	return r
}

// contains reports whether t has a subterm satisfying f.
func (t *Term) contains(f func(*Term) bool) bool {
	if f(t) {
		return true
	}
	for _, a := range t.args {
		if a.contains(f) {
			return true
		}
	}
	return false
}

func (t *Term) has(x *Term) bool { return t.contains(func(y *Term) bool { return x == y }) }

func (t *Term) walk(f func(*Term)) {
	f(t)
	for _, a := range t.args {
		a.walk(f)
	}
}

func shortName(s string) string {
	s = strings.ReplaceAll(s, modPath+"/", "")
	return strings.ReplaceAll(s, modPath+".", "")
}

func (t *Term) String() string {
	if t == nil {
		return "<none>"
	}
	as := func() string {
		var p []string
		for _, a := range t.args {
			p = append(p, a.String())
		}
		return strings.Join(p, ", ")
	}
	switch t.op {
	case OConst:
		if t.cv == nil {
			return "nil"
		}
		return t.cv.String()
	case OSym:
		if i := t.info(); i != nil {
			s := shortName(i.What)
			if i.Idx > 0 {
				s += "#" + strconv.Itoa(i.Idx)
			}
			if n := strings.Count(t.name, "^"); n > 0 {
				s += strings.Repeat("^", n)
			}
			return s
		}
		return t.name
	case OInit:
		return "*" + t.args[0].String()
	case OGlobal:
		return "&" + shortName(t.name)
	case OFunc, OClosure:
		if f, ok := t.obj.(*ssa.Function); ok {
			return "func " + f.Name()
		}
		return "func"
	case OAlloc, OMake:
		s := "new"
		if i := t.info(); i != nil {
			s = i.What
		}
		if n := strings.Count(t.name, "^"); n > 0 {
			s += strings.Repeat("^", n)
		}
		return s
	case OField:
		b := t.args[0].String()
		return "&" + strings.TrimPrefix(b, "&") + "." + t.field().name
	case OIndex:
		b := t.args[0].String()
		return "&" + strings.TrimPrefix(b, "&") + "[" + t.args[1].String() + "]"
	case OFieldVal:
		return t.args[0].String() + "." + t.name
	case OStruct:
		return shortName(t.name) + "{" + as() + "}"
	case OTuple:
		return "(" + as() + ")"
	case OLin:
		l := lin(t)
		s := ""
		for _, a := range t.args {
			k := l.atoms[a]
			switch {
			case k == 1:
				s += "+" + a.String()
			case k == -1:
				s += "-" + a.String()
			default:
				s += fmt.Sprintf("%+d*%s", k, a)
			}
		}
		if l.c != 0 {
			s += fmt.Sprintf("%+d", l.c)
		}
		return strings.TrimPrefix(s, "+")
	case OLen:
		return "len(" + as() + ")"
	case OCap:
		return "cap(" + as() + ")"
	case OEq:
		return t.args[0].String() + "==" + t.args[1].String()
	case OLe0:
		return t.args[0].String() + "<=0"
	case OEq0:
		return t.args[0].String() + "==0"
	case ONot:
		return "!(" + t.args[0].String() + ")"
	case OSlice:
		f := func(x *Term) string {
			if x.isNil() {
				return ""
			}
			return x.String()
		}
		return t.args[0].String() + "[" + f(t.args[1]) + ":" + f(t.args[2]) + "]"
	case OIface:
		return t.args[0].String()
	case OConv:
		return shortName(types.TypeString(t.typ, nil)) + "(" + as() + ")"
	case OAll:
		return "*"
	}
	return shortName(t.name) + "(" + as() + ")"
}
