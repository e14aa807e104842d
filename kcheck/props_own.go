package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C08", Run: checkC08, Explain: "Origin analysis, over all functions of the module, of every slice that is stored in a record (a type of the module that can be wiped and has slices in it: keys, messages, stores, parts of a message) or in a list of call-signs of one. The origins of a value are the places that make new slices, the fields of records it may have been read from, package variables and the parameters of the function; calls are followed by substituting arguments for parameters, both for values returned and for parameters a function keeps. Rules: what a record keeps was not read from another record, another field or a package variable (it has to be copied); a slice made once is not kept by two records, be it by two stores or by one that is repeated, nor wiped through a variable when a record keeps it; a record added to a list as a whole shares no slice with the record it was copied from.",
		Assume: []string{"the standard library returns slices that nobody else keeps, except for those functions of bytes, slices and append that are documented to return their argument", "records are only copied whole where C21 and C27 look at it, or to hand them out"}})
}

// A path is the address of a slice: fields, elements and pointers starting from
// some value.
type opath struct {
	root ssa.Value
	sel  string
}

func (p opath) String() string {
	n := "?"
	if p.root != nil {
		n = p.root.Name()
		if a, ok := p.root.(*ssa.Alloc); ok && a.Comment != "" {
			n = a.Comment
		}
	}
	return n + p.sel
}

// origin of a slice
type okind int

const (
	oFresh  okind = iota // made at v
	oField               // read from the field at path
	oElem                // read from the list at path
	oGlobal              // a package variable
	oParam               // parameter n of the function
	oPElem               // an element of parameter n
	oDeref               // what parameter n points to
)

type origin struct {
	kind okind
	v    ssa.Value
	path opath
	typ  string // oField: the record and field
}

type originSet map[origin]bool

func (s originSet) add(t originSet) (more bool) {
	for o := range t {
		if !s[o] {
			s[o] = true
			more = true
		}
	}
	return
}

// ownAnalysis finds out where slices come from.
type ownAnalysis struct {
	c       *Ctx
	records map[*types.TypeName]bool
	callers map[*ssa.Function][]ssa.CallInstruction
	vals    map[ssa.Value]originSet
	busy    map[ssa.Value]bool
	elems   map[ssa.Value]originSet
	ebusy   map[ssa.Value]bool
	stores  map[ssa.Value][]*ssa.Store // by the variable (Alloc, Global) stored to
}

func isList(t types.Type) bool { return isSlice(t) && isSlice(elemType(t)) }

func (a *ownAnalysis) record(t types.Type) *types.TypeName {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := t.(*types.Named); ok && a.records[n.Obj()] {
		return n.Obj()
	}
	return nil
}

// binding: the variable of the enclosing function that f refers to.
func binding(f *ssa.FreeVar) ssa.Value {
	fn := f.Parent()
	idx := -1
	for i, v := range fn.FreeVars {
		if v == f {
			idx = i
		}
	}
	if fn.Parent() == nil || idx < 0 {
		return f
	}
	for _, b := range fn.Parent().Blocks {
		for _, in := range b.Instrs {
			if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == fn {
				if g, ok := mc.Bindings[idx].(*ssa.FreeVar); ok {
					return binding(g)
				}
				return mc.Bindings[idx]
			}
		}
	}
	return f
}

func variable(v ssa.Value) ssa.Value {
	if f, ok := v.(*ssa.FreeVar); ok {
		return binding(f)
	}
	return v
}

// single: the value that is the only one assigned to a variable.
func (a *ownAnalysis) single(v ssa.Value) ssa.Value {
	if l := a.stores[variable(v)]; len(l) == 1 {
		return l[0].Val
	}
	return nil
}

func (a *ownAnalysis) pathOf(v ssa.Value) opath {
	switch v := v.(type) {
	case *ssa.FieldAddr:
		p := a.pathOf(v.X)
		st := v.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		p.sel += "." + st.Field(v.Field).Name()
		return p
	case *ssa.IndexAddr:
		p := a.pathOf(v.X)
		p.sel += "[" + a.index(v.Index) + "]"
		return p
	case *ssa.UnOp:
		if v.Op == token.MUL {
			if s := a.single(v.X); s != nil {
				return a.pathOf(s)
			}
			p := a.pathOf(v.X)
			p.sel += "*"
			return p
		}
	case *ssa.Slice:
		return a.pathOf(v.X)
	case *ssa.ChangeType:
		return a.pathOf(v.X)
	case *ssa.FreeVar:
		if b := binding(v); b != v {
			return a.pathOf(b)
		}
	}
	return opath{root: v}
}

func (a *ownAnalysis) index(v ssa.Value) string {
	switch v := v.(type) {
	case *ssa.Const:
		return v.Value.String()
	case *ssa.UnOp:
		if v.Op == token.MUL {
			if al, ok := variable(v.X).(*ssa.Alloc); ok {
				return fmt.Sprintf("*%p", al)
			}
		}
	}
	return fmt.Sprintf("%p", v)
}

func fieldTag(f *ssa.FieldAddr) string {
	t := f.X.Type().Underlying().(*types.Pointer).Elem()
	return types.TypeString(t, func(*types.Package) string { return "" }) + "." + t.Underlying().(*types.Struct).Field(f.Field).Name()
}

// of: the origins of the slice v.
func (a *ownAnalysis) of(v ssa.Value) originSet {
	if s, ok := a.vals[v]; ok {
		return s
	}
	if a.busy[v] {
		return nil
	}
	a.busy[v] = true
	s := originSet{}
	switch x := v.(type) {
	case *ssa.MakeSlice:
		s[origin{kind: oFresh, v: v}] = true
	case *ssa.Alloc:
		if _, ok := deref(x.Type()).Underlying().(*types.Array); ok {
			s[origin{kind: oFresh, v: v}] = true
		} else if isSlice(deref(x.Type())) { // a pointer to a slice
			s[origin{kind: oFresh, v: v}] = true
			s.add(a.read(x))
		}
	case *ssa.Slice:
		if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			switch y := x.X.(type) {
			case *ssa.Alloc:
				s[origin{kind: oFresh, v: y}] = true
			case *ssa.FieldAddr:
				s[origin{kind: oField, path: a.pathOf(y), typ: fieldTag(y)}] = true
			case *ssa.Global:
				s[origin{kind: oGlobal, v: y}] = true
			}
		} else {
			s.add(a.of(x.X))
		}
	case *ssa.Convert:
		if isSlice(x.X.Type()) {
			s.add(a.of(x.X))
		} else {
			s[origin{kind: oFresh, v: v}] = true
		}
	case *ssa.ChangeType:
		s.add(a.of(x.X))
	case *ssa.Phi:
		for _, e := range x.Edges {
			s.add(a.of(e))
		}
	case *ssa.Parameter:
		s[origin{kind: oParam, v: x}] = true
	case *ssa.UnOp:
		if x.Op == token.MUL {
			s.add(a.read(x.X))
		}
	case *ssa.Field:
		if a.record(x.X.Type()) != nil {
			p := a.pathOf(x.X)
			n := x.X.Type().Underlying().(*types.Struct).Field(x.Field).Name()
			p.sel += "." + n
			s[origin{kind: oField, path: p, typ: a.record(x.X.Type()).Name() + "." + n}] = true
		}
	case *ssa.Lookup:
		s.add(a.kept(x))
	case *ssa.Extract:
		if call, ok := x.Tuple.(*ssa.Call); ok {
			s.add(a.result(call, x.Index))
		} else if l, ok := x.Tuple.(*ssa.Lookup); ok && x.Index == 0 {
			s.add(a.kept(l))
		}
	case *ssa.Call:
		s.add(a.result(x, 0))
	}
	delete(a.busy, v)
	if len(a.busy) == 0 && len(a.ebusy) == 0 {
		a.vals[v] = s
	}
	return s
}

// kept: what a map gives is kept by the variable or record the map is in.
func (a *ownAnalysis) kept(l *ssa.Lookup) originSet {
	s := originSet{}
	if u, ok := l.X.(*ssa.UnOp); ok && u.Op == token.MUL {
		switch x := variable(u.X).(type) {
		case *ssa.Global:
			s[origin{kind: oGlobal, v: x}] = true
		case *ssa.FieldAddr:
			s[origin{kind: oField, path: a.pathOf(x), typ: fieldTag(x)}] = true
		}
	}
	return s
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// read: the origins of the slice stored at addr.
func (a *ownAnalysis) read(addr ssa.Value) originSet {
	s := originSet{}
	switch x := addr.(type) {
	case *ssa.FreeVar:
		if b := binding(x); b != addr {
			return a.read(b)
		}
	case *ssa.Alloc:
		for _, st := range a.stores[x] {
			s.add(a.of(st.Val))
		}
	case *ssa.Global:
		s[origin{kind: oGlobal, v: x}] = true
	case *ssa.FieldAddr:
		if a.record(x.X.Type()) != nil {
			s[origin{kind: oField, path: a.pathOf(x), typ: fieldTag(x)}] = true
		} else { // a field of another struct: what is stored in it anywhere
			s.add(a.fieldStores(x))
		}
	case *ssa.IndexAddr:
		s.add(a.elemsOf(x.X))
	case *ssa.Parameter:
		s[origin{kind: oDeref, v: x}] = true
	case *ssa.Phi:
		for _, e := range x.Edges {
			s.add(a.read(e))
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if v := a.single(x.X); v != nil {
				return a.read(v)
			}
			s.add(a.of(x)) // as much as the pointer itself
		}
	case *ssa.Call: // a pointer to a slice made by a function
		if f := x.Common().StaticCallee(); f != nil && len(f.Blocks) > 0 && inModule(f) {
			for _, r := range returnsOf(f) {
				if len(r.Results) > 0 {
					s.add(a.subst(a.read(r.Results[0]), x))
				}
			}
		}
	}
	return s
}

func inModule(f *ssa.Function) bool {
	return f.Pkg != nil && (f.Pkg.Pkg.Path() == modPath || strings.HasPrefix(f.Pkg.Pkg.Path(), modPath+"/"))
}

func returnsOf(f *ssa.Function) (l []*ssa.Return) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if r, ok := in.(*ssa.Return); ok {
				l = append(l, r)
			}
		}
	}
	return
}

// fieldStores: the origins of everything stored in a field of a type that is
// not a record, within the same function.
func (a *ownAnalysis) fieldStores(f *ssa.FieldAddr) originSet {
	s := originSet{}
	for _, b := range f.Parent().Blocks {
		for _, in := range b.Instrs {
			if st, ok := in.(*ssa.Store); ok {
				if g, ok := st.Addr.(*ssa.FieldAddr); ok && g.Field == f.Field && types.Identical(g.X.Type(), f.X.Type()) {
					s.add(a.of(st.Val))
				}
			}
		}
	}
	return s
}

// elemsOf: the origins of the elements of the list v (of slices).
func (a *ownAnalysis) elemsOf(v ssa.Value) originSet {
	if s, ok := a.elems[v]; ok {
		return s
	}
	if a.ebusy[v] {
		return nil
	}
	a.ebusy[v] = true
	s := originSet{}
	// assigned to elements
	assigned := func(c ssa.Value) {
		if fn := c.Parent(); fn != nil {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if st, ok := in.(*ssa.Store); ok {
						if ia, ok := st.Addr.(*ssa.IndexAddr); ok && isSlice(st.Val.Type()) && (ia.X == c || a.of(ia.X)[origin{kind: oFresh, v: c}]) {
							s.add(a.of(st.Val))
						}
					}
				}
			}
		}
	}
	switch x := v.(type) {
	case *ssa.MakeSlice:
		assigned(x)
	case *ssa.Alloc:
		assigned(x)
	case *ssa.Slice:
		s.add(a.elemsOf(x.X))
	case *ssa.ChangeType:
		s.add(a.elemsOf(x.X))
	case *ssa.Phi:
		for _, e := range x.Edges {
			s.add(a.elemsOf(e))
		}
	case *ssa.Parameter:
		s[origin{kind: oPElem, v: x}] = true
	case *ssa.UnOp:
		if x.Op == token.MUL {
			switch y := variable(x.X).(type) {
			case *ssa.Alloc:
				for _, st := range a.stores[y] {
					s.add(a.elemsOf(st.Val))
				}
			case *ssa.FieldAddr:
				if a.record(y.X.Type()) != nil {
					s[origin{kind: oElem, path: a.pathOf(y), typ: fieldTag(y)}] = true
				}
			case *ssa.Global:
				s[origin{kind: oGlobal, v: y}] = true
			case *ssa.Parameter:
				s[origin{kind: oPElem, v: y}] = true
			}
		}
	case *ssa.Lookup:
		s.add(a.kept(x))
	case *ssa.Extract:
		if call, ok := x.Tuple.(*ssa.Call); ok {
			s.add(a.elemResult(call, x.Index))
		} else if l, ok := x.Tuple.(*ssa.Lookup); ok && x.Index == 0 {
			s.add(a.kept(l))
		}
	case *ssa.Call:
		s.add(a.elemResult(x, 0))
	}
	delete(a.ebusy, v)
	if len(a.busy) == 0 && len(a.ebusy) == 0 {
		a.elems[v] = s
	}
	return s
}

// returnsArg: functions of the standard library whose result shares memory
// with the argument.
func returnsArg(f *ssa.Function) bool {
	n := f.String()
	if o := f.Origin(); o != nil {
		n = o.String()
	}
	return hasPrefixAny(n, "bytes.Trim", "bytes.TrimSpace", "bytes.Fields", "bytes.Split", "bytes.Cut") && n != "bytes.TrimFuncX" ||
		hasPrefixAny(n, "slices.") && !hasPrefixAny(n, "slices.Clone", "slices.Concat", "slices.Repeat", "slices.Collect", "slices.Sorted")
}

func (a *ownAnalysis) result(call *ssa.Call, i int) originSet {
	s := originSet{}
	cc := call.Common()
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		if b.Name() == "append" {
			s.add(a.of(cc.Args[0]))
			s[origin{kind: oFresh, v: call}] = true
		}
		return s
	}
	f := cc.StaticCallee()
	if f == nil {
		return s
	}
	if !inModule(f) || len(f.Blocks) == 0 {
		if returnsArg(f) && len(cc.Args) > 0 {
			return a.of(cc.Args[0])
		}
		s[origin{kind: oFresh, v: call}] = true
		return s
	}
	for _, r := range returnsOf(f) {
		if i < len(r.Results) {
			for o := range a.subst(a.of(r.Results[i]), call) {
				if o.kind == oFresh && o.v.Parent() == f {
					o = origin{kind: oFresh, v: call}
				}
				s[o] = true
			}
		}
	}
	return s
}

func (a *ownAnalysis) elemResult(call *ssa.Call, i int) originSet {
	s := originSet{}
	cc := call.Common()
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		if b.Name() == "append" {
			for _, x := range cc.Args {
				s.add(a.elemsOf(x))
			}
		}
		return s
	}
	if f := cc.StaticCallee(); f != nil && inModule(f) {
		for _, r := range returnsOf(f) {
			if i < len(r.Results) {
				for o := range a.subst(a.elemsOf(r.Results[i]), call) {
					if o.kind == oFresh && o.v.Parent() == f {
						o = origin{kind: oFresh, v: call}
					}
					s[o] = true
				}
			}
		}
	} else if f != nil && returnsArg(f) && len(cc.Args) > 0 {
		return a.elemsOf(cc.Args[0])
	} else {
		s[origin{kind: oFresh, v: call}] = true
	}
	return s
}

func (a *ownAnalysis) substPath(p opath, call ssa.CallInstruction) opath {
	if x, ok := p.root.(*ssa.Parameter); ok && x.Parent() == call.Common().StaticCallee() {
		for i, q := range x.Parent().Params {
			if q == x && i < len(call.Common().Args) {
				r := a.pathOf(call.Common().Args[i])
				r.sel += p.sel
				return r
			}
		}
	}
	return p
}

// subst: origins within the function called, seen from the caller.
func (a *ownAnalysis) subst(s originSet, call ssa.CallInstruction) originSet {
	t := originSet{}
	args := call.Common().Args
	for o := range s {
		switch o.kind {
		case oParam, oPElem, oDeref:
			i := paramIndex(o.v)
			if o.v.Parent() != call.Common().StaticCallee() {
				t[o] = true
				continue
			}
			if i < 0 || i >= len(args) {
				continue
			}
			switch o.kind {
			case oParam:
				t.add(a.of(args[i]))
			case oPElem:
				t.add(a.elemsOf(args[i]))
			case oDeref:
				t.add(a.read(args[i]))
			}
		case oField, oElem:
			o.path = a.substPath(o.path, call)
			t[o] = true
		default:
			t[o] = true
		}
	}
	return t
}

func paramIndex(v ssa.Value) int {
	if x, ok := v.(*ssa.Parameter); ok {
		for i, p := range x.Parent().Params {
			if p == x {
				return i
			}
		}
	}
	return -1
}

// A keep is a store of a slice (or of the elements of a list) in a record, seen
// from a function: the store itself or a call that leads to it.
type keep struct {
	in    ssa.Instruction
	at    opath // the field or list
	typ   string
	elem  bool
	from  originSet
	fn    *ssa.Function
	store *ssa.Store
}

func checkC08(c *Ctx) {
	a := &ownAnalysis{c: c, records: map[*types.TypeName]bool{}, callers: map[*ssa.Function][]ssa.CallInstruction{},
		vals: map[ssa.Value]originSet{}, busy: map[ssa.Value]bool{}, elems: map[ssa.Value]originSet{}, ebusy: map[ssa.Value]bool{}, stores: map[ssa.Value][]*ssa.Store{}}
	for _, p := range c.P.Pkgs {
		sc := p.Types.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			st, ok := tn.Type().Underlying().(*types.Struct)
			if !ok {
				continue
			}
			o, _, _ := types.LookupFieldOrMethod(types.NewPointer(tn.Type()), true, p.Types, "Wipe")
			if _, isFn := o.(*types.Func); !isFn {
				continue
			}
			for i := 0; i < st.NumFields(); i++ {
				if isSlice(st.Field(i).Type()) {
					a.records[tn] = true
				}
			}
		}
	}
	for _, n := range []string{"Key", "Message", "Krypto431"} {
		o, _ := c.P.ByPth[modPath].Types.Scope().Lookup(n).(*types.TypeName)
		if o == nil {
			c.Undecided("record "+n, token.NoPos, "there is no type %s", n)
			return
		}
		a.records[o] = true
	}
	var stores []*ssa.Store
	for _, f := range c.P.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					v := variable(x.Addr)
					a.stores[v] = append(a.stores[v], x)
					stores = append(stores, x)
				case ssa.CallInstruction:
					if g := x.Common().StaticCallee(); g != nil {
						a.callers[g] = append(a.callers[g], x)
					}
				}
			}
		}
	}
	var work []*keep
	for _, st := range stores {
		t := st.Val.Type()
		if !isSlice(t) && !isSlicePtr(t) {
			continue
		}
		if _, isNil := st.Val.(*ssa.Const); isNil {
			continue
		}
		fn := st.Parent()
		switch x := st.Addr.(type) {
		case *ssa.FieldAddr:
			if a.record(x.X.Type()) == nil {
				continue
			}
			work = append(work, &keep{in: st, at: a.pathOf(x), typ: fieldTag(x), from: a.of(st.Val), fn: fn, store: st})
			if isList(t) {
				work = append(work, &keep{in: st, at: a.pathOf(x), typ: fieldTag(x), elem: true, from: a.elemsOf(st.Val), fn: fn, store: st})
			}
		case *ssa.IndexAddr:
			// an element of the list of a record
			for o := range a.of(x.X) {
				if o.kind == oField {
					work = append(work, &keep{in: st, at: o.path, typ: o.typ, elem: true, from: a.of(st.Val), fn: fn, store: st})
				}
			}
		case *ssa.Parameter: // *p = v
			if !a.structList(t) {
				work = append(work, &keep{in: st, at: opath{root: x}, typ: "*" + x.Name(), from: a.of(st.Val), fn: fn, store: st})
			}
		}
	}
	c.count("slices stored in records", len(work))
	seen := map[string]bool{}
	direct := map[*ssa.Function][]*keep{}
	for len(work) > 0 {
		k := work[0]
		work = work[1:]
		key := fmt.Sprint(k.in, k.in.Pos(), k.at, k.elem, k.fn, k.store.Pos())
		for _, o := range k.from.sorted() {
			key += fmt.Sprint(" ", o)
		}
		if seen[key] {
			continue
		}
		seen[key] = true
		direct[k.fn] = append(direct[k.fn], k)
		up := map[*ssa.Function]bool{} // functions whose parameters are kept
		for _, o := range k.from.sorted() {
			switch o.kind {
			case oField:
				same := o.path == k.at && !k.elem || a.temporary(o.path.root)
				if strings.HasPrefix(k.typ, "*") {
					continue
				}
				c.Ob(same, "owner", k.name(), k.in.Pos(), "%s stores in %s the slice kept in %s (%s): they share memory", k.fn.Name(), k.typ, o.typ, o.path)
			case oElem:
				if strings.HasPrefix(k.typ, "*") {
					continue
				}
				c.Ob(o.path == k.at && k.elem || a.temporary(o.path.root), "owner", k.name(), k.in.Pos(), "%s stores in %s an element of the list %s (%s): they share memory", k.fn.Name(), k.typ, o.typ, o.path)
			case oGlobal:
				c.Ob(false, "owner", k.name(), k.in.Pos(), "%s stores in %s the slice of the package variable %s", k.fn.Name(), k.typ, o.v.Name())
			case oFresh:
				c.Ob(true, "owner", k.name(), k.in.Pos(), "")
			default:
				up[o.v.Parent()] = true
			}
		}
		if p, ok := k.at.root.(*ssa.Parameter); ok {
			up[p.Parent()] = true
		}
		// as seen by the callers: parameters that are kept
		var calls []ssa.CallInstruction
		for f := range up {
			calls = append(calls, a.callers[f]...)
		}
		for _, call := range calls {
			n := &keep{in: call, at: a.substPath(k.at, call), typ: k.typ, elem: k.elem, fn: call.Parent(), store: k.store}
			if strings.HasPrefix(n.typ, "*") {
				var pv ssa.Value
				i := paramIndex(k.at.root)
				if i < 0 || i >= len(call.Common().Args) || k.at.root.Parent() != call.Common().StaticCallee() {
					continue
				}
				pv = call.Common().Args[i]
				switch y := variableAddr(pv).(type) {
				case *ssa.FieldAddr:
					if a.record(y.X.Type()) == nil {
						continue
					}
					n.typ = fieldTag(y)
				case *ssa.Parameter:
					n.typ = "*" + y.Name()
				default:
					continue
				}
			}
			n.from = originSet{}
			for o := range a.subst(k.from, call) {
				if o.kind == oFresh && o.v.Parent() != call.Parent() {
					continue // made anew for every call
				}
				n.from[o] = true
			}
			if len(n.from) > 0 {
				work = append(work, n)
			}
		}
	}
	a.once(direct)
	a.wiped(direct)
	for _, f := range c.P.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok && a.wholeRecord(st.Val.Type()) {
					a.wholeStore(st, st.Val, st.Addr, st)
				}
			}
		}
	}
	c.Need("owner", 15)
}

func variableAddr(v ssa.Value) ssa.Value {
	if v == nil {
		return nil
	}
	return variable(v)
}

func isSlicePtr(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	return ok && isSlice(p.Elem())
}

func (a *ownAnalysis) structList(t types.Type) bool {
	if !isSlice(t) {
		return false
	}
	_, ok := elemType(t).Underlying().(*types.Struct)
	return ok
}

func (k *keep) name() string { return k.fn.Name() + " " + k.typ }

func (s originSet) sorted() (l []origin) {
	for o := range s {
		l = append(l, o)
	}
	sort.Slice(l, func(i, j int) bool { return fmt.Sprint(l[i]) < fmt.Sprint(l[j]) })
	return
}

func (a *ownAnalysis) wholeRecord(t types.Type) bool {
	_, ok := t.Underlying().(*types.Struct)
	return ok && a.record(t) != nil
}

// temporary: a record in a local variable that is neither wiped nor handed
// out, nor a copy of another record: its slices may move to another record.
func (a *ownAnalysis) temporary(v ssa.Value) bool {
	al, ok := v.(*ssa.Alloc)
	if !ok || a.record(al.Type()) == nil || al.Referrers() == nil {
		return false
	}
	for _, st := range a.stores[al] {
		if len(a.whole(st.Val, map[ssa.Value]bool{})) > 0 {
			return false
		}
	}
	for _, in := range *al.Referrers() {
		switch x := in.(type) {
		case *ssa.Return, *ssa.MakeClosure, *ssa.Phi:
			return false
		case *ssa.Store:
			if x.Val == al {
				return false
			}
		case ssa.CallInstruction:
			if f := x.Common().StaticCallee(); f != nil && inModule(f) && len(f.Params) > 0 && (strings.HasSuffix(f.Name(), "Wipe") || f.Name() == "Close") {
				return false
			}
		}
	}
	return true
}

// whole: the places the record v may have been copied from with slices in it
// that the copy still shares (paths, and parameters).
func (a *ownAnalysis) whole(v ssa.Value, seen map[ssa.Value]bool) map[opath]bool {
	m := map[opath]bool{}
	if v == nil || seen[v] {
		return m
	}
	seen[v] = true
	add := func(n map[opath]bool) {
		for p := range n {
			m[p] = true
		}
	}
	switch x := v.(type) {
	case *ssa.Phi:
		for _, e := range x.Edges {
			add(a.whole(e, seen))
		}
	case *ssa.Parameter:
		m[opath{root: x}] = true
	case *ssa.Extract:
		if call, ok := x.Tuple.(*ssa.Call); ok {
			add(a.wholeResult(call, x.Index, seen))
		}
	case *ssa.Call:
		add(a.wholeResult(x, 0, seen))
	case *ssa.Index:
		m[a.pathOf(x)] = true
	case *ssa.UnOp:
		if x.Op != token.MUL {
			break
		}
		if al, ok := variable(x.X).(*ssa.Alloc); ok {
			for _, st := range a.stores[al] {
				if a.shares(al, st, x) {
					add(a.whole(st.Val, seen))
				}
			}
			break
		}
		add(a.places(x.X))
	}
	return m
}

// places: the records a pointer may point to.
func (a *ownAnalysis) places(ptr ssa.Value) map[opath]bool {
	m := map[opath]bool{}
	p := a.pathOf(ptr)
	call, i := callOf(p.root)
	if call == nil || p.sel != "" {
		m[p] = true
		return m
	}
	if f := call.Common().StaticCallee(); f != nil && inModule(f) {
		for _, r := range returnsOf(f) {
			if i >= len(r.Results) {
				continue
			}
			al, ok := r.Results[i].(*ssa.Alloc)
			if !ok {
				m[a.substPath(a.pathOf(r.Results[i]), call)] = true
				continue
			}
			for _, st := range a.stores[al] {
				if a.wholeRecord(st.Val.Type()) && a.shares(al, st, r) {
					for p := range a.whole(st.Val, map[ssa.Value]bool{}) {
						for q := range a.substWhole(p, call) {
							m[q] = true
						}
					}
				}
			}
		}
	}
	return m
}

// substWhole: a record within the function called, seen from the caller.
func (a *ownAnalysis) substWhole(p opath, call ssa.CallInstruction) map[opath]bool {
	f := call.Common().StaticCallee()
	if x, ok := p.root.(*ssa.Parameter); ok && x.Parent() == f && p.sel == "" {
		if j := paramIndex(x); j < len(call.Common().Args) {
			if a.wholeRecord(x.Type()) {
				return a.whole(call.Common().Args[j], map[ssa.Value]bool{})
			}
			return a.places(call.Common().Args[j])
		}
	}
	return map[opath]bool{a.substPath(p, call): true}
}

func callOf(v ssa.Value) (*ssa.Call, int) {
	switch x := v.(type) {
	case *ssa.Call:
		return x, 0
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return c, x.Index
		}
	}
	return nil, 0
}

func (a *ownAnalysis) wholeResult(call *ssa.Call, i int, seen map[ssa.Value]bool) map[opath]bool {
	m := map[opath]bool{}
	f := call.Common().StaticCallee()
	if f == nil || !inModule(f) {
		return m
	}
	for _, r := range returnsOf(f) {
		if i >= len(r.Results) {
			continue
		}
		for p := range a.whole(r.Results[i], seen) {
			for q := range a.substWhole(p, call) {
				m[q] = true
			}
		}
	}
	return m
}

// shares: when the variable is read at use, some slice of the record stored by
// st may still be in it.
func (a *ownAnalysis) shares(al *ssa.Alloc, st *ssa.Store, use ssa.Instruction) bool {
	if st.Parent() != use.Parent() {
		return true
	}
	stt := deref(al.Type()).Underlying().(*types.Struct)
	for i := 0; i < stt.NumFields(); i++ {
		if t := stt.Field(i).Type(); !isSlice(t) && !isSlicePtr(t) {
			continue
		}
		kill := map[ssa.Instruction]bool{}
		for _, in := range *al.Referrers() {
			if fa, ok := in.(*ssa.FieldAddr); ok && fa.Field == i && fa.Referrers() != nil {
				for _, u := range *fa.Referrers() {
					if w, ok := u.(*ssa.Store); ok && w.Addr == fa {
						kill[w] = true
					}
				}
			}
			if w, ok := in.(*ssa.Store); ok && w != st {
				kill[w] = true
			}
		}
		if reachesAvoiding(st, use, kill) {
			return true
		}
	}
	return false
}

// wholeStore: a record stored in the list of a record (or of a variable that
// is added to one) keeps its slices from no other record.
func (a *ownAnalysis) wholeStore(st *ssa.Store, val, addr ssa.Value, at ssa.Instruction) {
	ia, ok := addr.(*ssa.IndexAddr)
	if !ok {
		return
	}
	var lists []opath
	if al, ok := ia.X.(*ssa.Alloc); ok { // arguments of append
		for _, in := range *al.Referrers() {
			sl, ok := in.(*ssa.Slice)
			if !ok {
				continue
			}
			for _, u := range *sl.Referrers() {
				call, ok := u.(*ssa.Call)
				if b, isB := u.(*ssa.Call); isB && ok {
					if bi, ok := b.Common().Value.(*ssa.Builtin); ok && bi.Name() == "append" {
						for _, w := range *call.Referrers() {
							if ws, ok := w.(*ssa.Store); ok {
								if fa, ok := ws.Addr.(*ssa.FieldAddr); ok && a.record(fa.X.Type()) != nil {
									lists = append(lists, a.pathOf(fa))
								}
							}
						}
					}
				}
			}
		}
	} else {
		for o := range a.of(ia.X) {
			if o.kind == oField {
				lists = append(lists, o.path)
			}
		}
	}
	for _, l := range lists {
		ok := true
		var bad opath
		a.upwards(a.whole(val, map[ssa.Value]bool{}), l, st.Parent(), 0, func(p, l opath) {
			if strings.Contains(p.sel, "[") && (p.root != l.root || !strings.HasPrefix(p.sel, l.sel+"*[") && !strings.HasPrefix(p.sel, l.sel+"[")) {
				ok, bad = false, p
			}
		})
		a.c.Ob(ok, "whole", st.Parent().Name()+" "+a.record(val.Type()).Name(), at.Pos(), "%s adds to %s a %s copied from %s that still shares slices with it", st.Parent().Name(), l, a.record(val.Type()).Name(), bad)
	}
}

// upwards: the records a list l of fn may get, seen from fn and its callers.
func (a *ownAnalysis) upwards(from map[opath]bool, l opath, fn *ssa.Function, depth int, f func(p, l opath)) {
	ask := false
	for p := range from {
		f(p, l)
		if x, ok := p.root.(*ssa.Parameter); ok && x.Parent() == fn && !strings.Contains(p.sel, "[") {
			ask = true
		}
	}
	if !ask || depth > 4 {
		return
	}
	for _, call := range a.callers[fn] {
		up := map[opath]bool{}
		for p := range from {
			if x, ok := p.root.(*ssa.Parameter); ok && x.Parent() == fn {
				for q := range a.substWhole(p, call) {
					up[q] = true
				}
			}
		}
		a.upwards(up, a.substPath(l, call), call.Parent(), depth+1, f)
	}
}

// reachesAvoiding: there is a path from a to b without any of the instructions.
func reachesAvoiding(a, b ssa.Instruction, kill map[ssa.Instruction]bool) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(blk *ssa.BasicBlock, i int) bool
	walk = func(blk *ssa.BasicBlock, i int) bool {
		for ; i < len(blk.Instrs); i++ {
			if blk.Instrs[i] == b {
				return true
			}
			if kill[blk.Instrs[i]] {
				return false
			}
		}
		for _, s := range blk.Succs {
			if !seen[s] {
				seen[s] = true
				if walk(s, 0) {
					return true
				}
			}
		}
		return false
	}
	for i, x := range a.Block().Instrs {
		if x == a {
			return walk(a.Block(), i+1)
		}
	}
	return false
}

// once: a slice made at one place is kept by one record only.
func (a *ownAnalysis) once(direct map[*ssa.Function][]*keep) {
	for _, fn := range a.c.P.Funcs {
		l := direct[fn]
		for i, k := range l {
			for o := range k.from {
				if o.kind != oFresh || o.v.Parent() != fn {
					continue
				}
				mk, ok := o.v.(ssa.Instruction)
				if !ok {
					continue
				}
				// repeated without making it again, for another record each time
				rep := again(k.in, k.in, mk) && a.moves(k.at, k.in, mk)
				a.c.Ob(!rep, "once", k.name(), k.in.Pos(), "%s may store one slice in %s of several records", fn.Name(), k.typ)
				for _, m := range l[i+1:] {
					if m.from[o] && m.at != k.at && m.in != k.in && !a.sameRecord(k.at, m.at) {
						two := again(k.in, m.in, mk) || again(m.in, k.in, mk)
						a.c.Ob(!two, "once", k.name()+" and "+m.typ, m.in.Pos(), "%s may store one slice in %s and in %s", fn.Name(), k.typ, m.typ)
					}
				}
			}
		}
	}
}

// wiped: a slice a record keeps is not wiped through a variable afterwards.
func (a *ownAnalysis) wiped(direct map[*ssa.Function][]*keep) {
	for _, fn := range a.c.P.Funcs {
		if len(direct[fn]) == 0 {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				f := call.Common().StaticCallee()
				if f == nil || !inModule(f) || !strings.Contains(f.Name(), "Wipe") || len(call.Common().Args) == 0 {
					continue
				}
				al, ok := variable(call.Common().Args[0]).(*ssa.Alloc)
				if !ok || !isSlice(deref(al.Type())) {
					continue
				}
				kill := map[ssa.Instruction]bool{}
				for _, st := range a.stores[al] {
					kill[st] = true
				}
				for _, k := range direct[fn] {
					shared := false
					for o := range k.from {
						shared = shared || o.kind == oFresh && a.read(al)[o]
					}
					if !shared {
						continue
					}
					_, later := in.(*ssa.Defer)
					if later {
						kill = nil
					}
					a.c.Ob(!later && !reachesAvoiding(k.in, in, kill), "wiped", k.name(), in.Pos(), "%s wipes %s, which it may have stored in %s", fn.Name(), al.Comment, k.typ)
				}
			}
		}
	}
}

// sameRecord: two fields of one record.
func (a *ownAnalysis) sameRecord(p, q opath) bool {
	cut := func(s string) string {
		if i := strings.LastIndexByte(s, '.'); i >= 0 {
			return s[:i]
		}
		return s
	}
	return p.root == q.root && cut(p.sel) == cut(q.sel)
}

// moves: the address may be another one when the store is repeated: it depends
// on something computed in the loop.
func (a *ownAnalysis) moves(p opath, in, mk ssa.Instruction) bool {
	if strings.Contains(p.sel, "[") {
		return true
	}
	if r, ok := p.root.(ssa.Instruction); ok {
		return r.Parent() != in.Parent() || again(in, r, mk)
	}
	return false
}

// again: from a one can get to b without passing m.
func again(a, b, m ssa.Instruction) bool {
	type pt struct {
		b *ssa.BasicBlock
		i int
	}
	pos := func(in ssa.Instruction) int {
		for i, x := range in.Block().Instrs {
			if x == in {
				return i
			}
		}
		return 0
	}
	if a.Parent() != b.Parent() || a.Block() == nil || b.Block() == nil {
		return false
	}
	seen := map[*ssa.BasicBlock]bool{}
	work := []pt{{a.Block(), pos(a) + 1}}
	for len(work) > 0 {
		w := work[len(work)-1]
		work = work[:len(work)-1]
		stop := false
		for i := w.i; i < len(w.b.Instrs); i++ {
			if w.b.Instrs[i] == m {
				stop = true
				break
			}
			if w.b.Instrs[i] == b {
				return true
			}
		}
		if stop {
			continue
		}
		for _, s := range w.b.Succs {
			if !seen[s] {
				seen[s] = true
				work = append(work, pt{s, 0})
			}
		}
	}
	return false
}
