package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const maxDepth = 16

// callee evaluates what a call calls, and its arguments.
func (e *Engine) callee(s *State, c *ssa.CallCommon) (*Term, []*Term) {
	var args []*Term
	if c.IsInvoke() {
		recv := e.val(s, c.Value)
		for _, a := range c.Args {
			args = append(args, e.val(s, a))
		}
		if recv.op == OIface {
			if ct, ok := recv.obj.(types.Type); ok {
				if f := e.p.SSA.LookupMethod(ct, c.Method.Pkg(), c.Method.Name()); f != nil {
					return mkFunc(f), append([]*Term{recv.args[0]}, args...)
				}
			}
		}
		f := intern(OFunc, "invoke:("+typeName(c.Value.Type())+")."+c.Method.Name(), nil)
		return f, append([]*Term{recv}, args...)
	}
	for _, a := range c.Args {
		args = append(args, e.val(s, a))
	}
	return e.val(s, c.Value), args
}

func (e *Engine) mkCall(fr *frame, in ssa.CallInstruction, fnT *Term, args []*Term) *Call {
	c := &Call{Site: in, Args: args, Pos: in.Pos(), In: fr.fn, FnT: fnT}
	sig := in.Common().Signature()
	switch sig.Results().Len() {
	case 0:
	case 1:
		c.Res = sig.Results().At(0).Type()
	default:
		c.Res = sig.Results()
	}
	if f, ok := fnT.obj.(*ssa.Function); ok {
		c.Fn = f
		c.Name = shortName(f.String())
	} else if fnT.op == OFunc {
		c.Name = strings.TrimPrefix(fnT.name, "invoke:")
	} else {
		c.Name = "dynamic"
	}
	return c
}

func (e *Engine) onStack(f *ssa.Function) bool {
	for _, g := range e.stack {
		if g == f {
			return true
		}
	}
	return false
}

// invoke runs or models a call.
func (e *Engine) invoke(fr *frame, st *State, site ssa.CallInstruction, fnT *Term, args []*Term, isDefer bool) []CallOut {
	e.siteSeen[site] = true
	if fnT.op == OFunc && strings.HasPrefix(fnT.name, "builtin:") {
		v, _ := site.(ssa.Value)
		return e.builtin(fr, st, site, v, strings.TrimPrefix(fnT.name, "builtin:"), args)
	}
	c := e.mkCall(fr, site, fnT, args)
	c.Defer = isDefer
	e.curFr = fr
	if e.h.Call != nil {
		if outs, ok := e.h.Call(e, st, c); ok {
			return e.split(fr, outs, site)
		}
	}
	if c.Fn != nil && len(c.Fn.Blocks) > 0 && (e.p.InModule(c.Fn) || c.Fn.Synthetic != "" && c.Fn.Pkg == nil) &&
		!(e.h.Opaque != nil && e.h.Opaque(c.Fn) && !e.isPart(c.Fn, fr.fn)) && len(e.stack) < maxDepth && !e.onStack(c.Fn) {
		var binds []*Term
		if fnT.op == OClosure {
			binds = fnT.args
		}
		ctx := e.ctxID(fr.ctx, fr.fi.instrID[site]*2+b2i(isDefer), c.Fn)
		if isDefer {
			// several deferred sites may run at one RunDefers
			ctx = e.ctxID(ctx, fr.fi.instrID[site], c.Fn)
		}
		var outs []CallOut
		for _, o := range e.callFn(c.Fn, args, binds, st, ctx) {
			switch o.kind {
			case "ret":
				var v *Term
				if len(o.vals) == 1 {
					v = o.vals[0]
				} else {
					v = mkTuple(o.vals)
				}
				outs = append(outs, CallOut{St: o.st, Val: v})
			default:
				outs = append(outs, CallOut{St: o.st, Kind: o.kind})
			}
		}
		return e.split(fr, outs, site)
	}
	return e.split(fr, e.opaque(fr, st, c), site)
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// split keeps the outcomes that return, and records the others.
func (e *Engine) split(fr *frame, outs []CallOut, site ssa.CallInstruction) []CallOut {
	var res []CallOut
	for _, o := range outs {
		if o.Kind == "" {
			res = append(res, o)
			continue
		}
		e.unwind(fr, o.St, site.Pos(), o.Kind)
	}
	return res
}

// Result makes fresh symbols for the results of a call.
func (e *Engine) Result(c *Call) *Term {
	if c.Res == nil {
		return mkTuple(nil)
	}
	return e.symTuple(e.curFr, c.Site, c.Res, c.Name, c.Args)
}

// results as a list
func resList(t *Term) []*Term {
	if t == nil {
		return nil
	}
	if t.op == OTuple {
		return t.args
	}
	return []*Term{t}
}

func isError(t types.Type) bool {
	return t != nil && types.TypeString(t, nil) == "error"
}

var purePkgs = map[string]bool{"strings": true, "unicode": true, "unicode/utf8": true, "path/filepath": true, "path": true,
	"strconv": true, "math": true, "encoding/hex": true, "errors": true, "cmp": true, "bytes": true, "regexp": true}

var quietPkgs = map[string]bool{"fmt": true, "log": true, "os": true, "time": true, "runtime": true, "sort": false, "slices": false,
	"github.com/sa6mwa/dtg": true, "text/tabwriter": true, "io/fs": true, "sync": true}

// pure functions: the result depends on the arguments only.
func (e *Engine) isPure(c *Call) bool {
	if c.Fn == nil {
		return c.Name == "(error).Error"
	}
	if c.Fn.Pkg == nil {
		return false
	}
	p := c.Fn.Pkg.Pkg.Path()
	if !purePkgs[p] {
		return false
	}
	if p == "errors" && c.Fn.Name() == "New" {
		return false
	}
	// contents of slices change without the slice changing
	sig := c.Fn.Signature
	for i := 0; i < sig.Params().Len(); i++ {
		if isSlice(sig.Params().At(i).Type()) {
			return false
		}
	}
	for i := 0; i < sig.Results().Len(); i++ {
		if isSlice(sig.Results().At(i).Type()) {
			return false
		}
	}
	if p == "bytes" || p == "strings" {
		return c.Fn.Signature.Recv() == nil && !strings.HasPrefix(c.Fn.Name(), "New")
	}
	if p == "path/filepath" {
		switch c.Fn.Name() {
		case "EvalSymlinks", "Glob", "Walk", "WalkDir", "Abs":
			return false
		}
	}
	return c.Fn.Signature.Recv() == nil
}

func (e *Engine) opaque(fr *frame, st *State, c *Call) []CallOut {
	if c.Fn != nil {
		switch c.Fn.String() {
		case "os.Exit", "log.Fatal", "log.Fatalf", "log.Fatalln", "runtime.Goexit":
			return []CallOut{{St: st, Kind: "exit"}}
		case "log.Panic", "log.Panicf", "log.Panicln":
			return []CallOut{{St: st, Kind: "panic"}}
		}
	}
	var v *Term
	if e.isPure(c) {
		name := c.Name
		switch r := c.Res.(type) {
		case nil:
			v = mkTuple(nil)
		case *types.Tuple:
			var ts []*Term
			for i := 0; i < r.Len(); i++ {
				t := intern(OCall, name+"#"+itoa(i), r.At(i).Type(), c.Args...)
				ts = append(ts, t)
			}
			v = mkTuple(ts)
		default:
			v = intern(OCall, name, c.Res, c.Args...)
		}
	} else {
		v = e.symTuple(fr, c.Site, resType(c), c.Name, c.Args)
		e.effects(st, c)
		if c.Fn != nil {
			switch c.Fn.String() {
			case "errors.New", "fmt.Errorf":
				st.assume(mkEq(v, mkNil()), false)
			}
		}
	}
	if e.h.Opq != nil {
		e.h.Opq(e, st, c, v)
	}
	return []CallOut{{St: st, Val: v}}
}

func resType(c *Call) types.Type {
	if c.Res == nil {
		return types.NewTuple()
	}
	return c.Res
}

// effects applies what an unseen callee may have changed.
func (e *Engine) effects(st *State, c *Call) {
	if c.Fn != nil && e.p.InModule(c.Fn) {
		e.havocMods(st, e.modSet(c.Fn), c)
		return
	}
	if c.Fn != nil && c.Fn.Pkg != nil {
		p := c.Fn.Pkg.Pkg.Path()
		if n := c.Fn.Name(); n == "Encode" || n == "Decode" || n == "EncodeRune" {
			// writes to its argument
		} else if purePkgs[p] || quietPkgs[p] {
			if !(p == "os" && c.Fn.Signature.Recv() != nil && strings.HasPrefix(c.Fn.Name(), "Read")) {
				return
			}
		}
	}
	if c.Fn == nil && c.Name == "dynamic" {
		sig := c.Site.Common().Signature()
		if sig.Results().Len() == 1 && isBool(sig.Results().At(0).Type()) {
			return // a predicate
		}
		if n := namedOf(c.Site.Common().Value.Type()); n != nil && n.Obj().Name() == "Option" && e.optFields != nil {
			for _, a := range c.Args {
				if stt := structOf(a.typ); stt != nil {
					st2 := pointee(a)
					for i := 0; i < stt.NumFields(); i++ {
						if e.optFields[stt.Field(i).Name()] {
							st.havoc(mkField(a, st2, i))
						}
					}
				}
			}
			return
		}
	}
	for _, a := range c.Args {
		e.havocArg(st, a, 0)
	}
}

func (e *Engine) havocArg(st *State, a *Term, d int) {
	if d > 4 {
		return
	}
	switch {
	case a.op == OIface:
		e.havocArg(st, a.args[0], d+1)
	case a.op == OClosure:
		if f, ok := a.obj.(*ssa.Function); ok && len(f.FreeVars) > 0 {
			for i, b := range a.args {
				if writesFree(f, i) {
					st.havoc(b)
					st.escapeVal(b)
				}
			}
		}
	case isPtr(a.typ) && !a.isNil():
		st.escapeVal(a)
		st.havoc(a)
	case isSlice(a.typ) && !a.isNil():
		st.escapeVal(a)
		et := elemType(a.typ)
		st.havoc(mkIndexRaw(a, mkAll(""), types.NewPointer(et)))
		delete(st.cont, a)
	}
}

func writesFree(f *ssa.Function, i int) bool {
	if i >= len(f.FreeVars) {
		return true
	}
	fv := f.FreeVars[i]
	for _, r := range *fv.Referrers() {
		switch r := r.(type) {
		case *ssa.Store:
			if r.Addr == fv {
				return true
			}
		case *ssa.UnOp, *ssa.DebugRef:
		default:
			return true
		}
	}
	return false
}

// modSet lists what a module function may write: "f:type#field",
// "e:elemtype", "p:type", "g:global", "P<i>" (through parameter i itself).
func (e *Engine) modSet(f *ssa.Function) map[string]types.Type {
	if e.mods == nil {
		e.mods = map[*ssa.Function]map[string]types.Type{}
	}
	if m, ok := e.mods[f]; ok {
		return m
	}
	m := map[string]types.Type{}
	e.mods[f] = m
	if len(f.Blocks) == 0 || !e.p.InModule(f) {
		return m
	}
	structMods := func(t types.Type) {
		if st, ok := t.Underlying().(*types.Struct); ok {
			for i := 0; i < st.NumFields(); i++ {
				m["f:"+typeName(t)+"#"+st.Field(i).Name()] = t
			}
		}
	}
	addr := func(a ssa.Value, vt types.Type) {
		if p := spilledParam(a); p != nil {
			a = p
		}
		switch a := a.(type) {
		case *ssa.FieldAddr:
			st := a.X.Type().Underlying().(*types.Pointer).Elem()
			m["f:"+typeName(st)+"#"+st.Underlying().(*types.Struct).Field(a.Field).Name()] = st
		case *ssa.IndexAddr:
			m["e:"+typeName(vt)] = vt
		case *ssa.Alloc, *ssa.FreeVar:
			// a local variable (captured ones are seen through the closure)
			if v, ok := a.(*ssa.FreeVar); ok {
				if al, ok := boundTo(v).(*ssa.Alloc); ok {
					m["V"+e.fnNumber(al.Parent())+":"+typeName(vt)] = vt // gone when that function returns
				} else {
					m["p:"+typeName(vt)] = vt
				}
			}
		case *ssa.Const: // nil
		case *ssa.Global:
			m["g:"+a.String()] = vt
		case *ssa.Parameter:
			for i, p := range f.Params {
				if p == a {
					m["P"+itoa(i)] = vt
				}
			}
			if g := a.Parent(); g != f {
				for i, p := range g.Params {
					if p == a {
						m["Q"+e.fnNumber(g)+":"+itoa(i)] = vt
					}
				}
			}
		default:
			m["p:"+typeName(vt)] = vt
			structMods(vt)
		}
	}
	own := e.fnNumber(f) + ":"
	add := func(k string, t types.Type) { // what a function called or made here writes
		switch {
		case k[0] == 'V' && strings.HasPrefix(k[1:], own):
		case k[0] == 'Q' && strings.HasPrefix(k[1:], own):
			m["P"+k[1+len(own):]] = t
		default:
			m[k] = t
		}
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Store); ok {
				addr(s.Addr, s.Val.Type())
				switch s.Addr.(type) {
				case *ssa.Alloc, *ssa.Parameter:
				default:
					if spilledParam(s.Addr) != nil {
						continue
					}
					if v, ok := s.Addr.(*ssa.FreeVar); ok {
						if _, ok := boundTo(v).(*ssa.Alloc); ok {
							continue
						}
					}
					structMods(s.Val.Type())
				}
			}
			if c, ok := in.(ssa.CallInstruction); ok {
				if bi, ok := c.Common().Value.(*ssa.Builtin); ok && (bi.Name() == "copy" || bi.Name() == "clear") {
					if et := elemType(c.Common().Args[0].Type()); et != nil {
						m["e:"+typeName(et)] = et
					}
				}
				sc := c.Common().StaticCallee()
				if sc == nil || len(sc.Blocks) == 0 || !e.p.InModule(sc) {
					if sc == nil && !c.Common().IsInvoke() || sc != nil && !e.p.InModule(sc) {
						// outside code writes through the pointers it gets
						if sc != nil && sc.Pkg != nil && (purePkgs[sc.Pkg.Pkg.Path()] || quietPkgs[sc.Pkg.Pkg.Path()]) {
							continue
						}
					}
					for _, a := range c.Common().Args {
						if p, ok := a.Type().Underlying().(*types.Pointer); ok {
							addr(a, p.Elem())
							structMods(p.Elem())
						} else if et := elemType(a.Type()); et != nil && isSlice(a.Type()) {
							m["e:"+typeName(et)] = et
						} else if mi, ok := a.(*ssa.MakeInterface); ok {
							if p, ok := mi.X.Type().Underlying().(*types.Pointer); ok {
								addr(mi.X, p.Elem())
								structMods(p.Elem())
							}
						}
					}
					continue
				}
				for k, t := range e.modSet(sc) {
					if k[0] == 'P' {
						i := 0
						for _, ch := range k[1:] {
							i = i*10 + int(ch-'0')
						}
						if i < len(c.Common().Args) {
							addr(c.Common().Args[i], t)
							structModsIf(m, c.Common().Args[i], t, structMods)
						}
						continue
					}
					add(k, t)
				}
			}
			if mc, ok := in.(*ssa.MakeClosure); ok {
				for k, t := range e.modSet(mc.Fn.(*ssa.Function)) {
					if k[0] != 'P' {
						add(k, t)
					}
				}
			}
		}
	}
	return m
}

// boundTo is what a captured variable stands for in the function around.
func boundTo(v *ssa.FreeVar) ssa.Value {
	f := v.Parent()
	if f.Parent() == nil {
		return nil
	}
	for i, fv := range f.FreeVars {
		if fv != v {
			continue
		}
		for _, b := range f.Parent().Blocks {
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == f {
					if w, ok := mc.Bindings[i].(*ssa.FreeVar); ok {
						return boundTo(w)
					}
					return mc.Bindings[i]
				}
			}
		}
	}
	return nil
}

// spilledParam: a is read from a variable that holds a parameter and nothing
// else (a parameter that is captured by a function literal).
func spilledParam(a ssa.Value) *ssa.Parameter {
	u, ok := a.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return nil
	}
	x := u.X
	if v, ok := x.(*ssa.FreeVar); ok {
		x = boundTo(v)
	}
	al, ok := x.(*ssa.Alloc)
	if !ok {
		return nil
	}
	var p *ssa.Parameter
	seen := map[ssa.Value]bool{}
	var only func(v ssa.Value) bool
	only = func(v ssa.Value) bool {
		if seen[v] {
			return true
		}
		seen[v] = true
		for _, r := range *v.Referrers() {
			switch r := r.(type) {
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.Store:
				q, ok := r.Val.(*ssa.Parameter)
				if r.Addr != v || !ok || p != nil {
					return false
				}
				p = q
			case *ssa.MakeClosure:
				g := r.Fn.(*ssa.Function)
				for i, b := range r.Bindings {
					if b == v && !only(g.FreeVars[i]) {
						return false
					}
				}
			default:
				return false
			}
		}
		return true
	}
	if !only(al) {
		return nil
	}
	return p
}

func (e *Engine) fnNumber(f *ssa.Function) string {
	if e.fnNums == nil {
		e.fnNums = map[*ssa.Function]int{}
	}
	n, ok := e.fnNums[f]
	if !ok {
		n = len(e.fnNums)
		e.fnNums[f] = n
	}
	return itoa(n)
}

func structModsIf(m map[string]types.Type, a ssa.Value, t types.Type, f func(types.Type)) {
	switch a.(type) {
	case *ssa.Alloc, *ssa.Parameter, *ssa.Const:
		return
	}
	f(t)
}

// isPart: f is a piece of its caller moved to a function of its own, which is
// followed even where other functions are skipped: an unexported function of
// the same package that is short and has no loop, or that writes to a variable
// of the caller.
func (e *Engine) isPart(f, caller *ssa.Function) bool {
	if f.Object() == nil || f.Object().Exported() || !e.p.InModule(f) || f.Pkg == nil || caller == nil || outermost(caller).Pkg != f.Pkg {
		return false
	}
	if e.parts == nil {
		e.parts = map[*ssa.Function]bool{}
	}
	if r, ok := e.parts[f]; ok {
		return r
	}
	n := 0
	for _, b := range f.Blocks {
		n += len(b.Instrs)
	}
	r := n <= 60 && len(e.info(f).loops) == 0
	if rv := f.Signature.Recv(); rv != nil {
		if nm, ok := pointeeOr(rv.Type()).(*types.Named); ok && !nm.Obj().Exported() {
			r = false
		}
	} else if !r && n <= 400 {
		for k, t := range e.modSet(f) {
			if k[0] == 'P' && t != nil {
				if _, st := t.Underlying().(*types.Struct); !st {
					r = true
				}
			}
		}
	}
	e.parts[f] = r
	return r
}

// AutoOpaque makes an Opaque hook: a module function is skipped (its writes
// havocked) when nothing it may write, call or return is relevant.
func (e *Engine) AutoOpaque(relMod func(k string) bool, relCall func(f *ssa.Function) bool, relType func(t types.Type) bool) func(f *ssa.Function) bool {
	memo := map[*ssa.Function]bool{}
	var calls func(f *ssa.Function, seen map[*ssa.Function]bool) bool
	calls = func(f *ssa.Function, seen map[*ssa.Function]bool) bool {
		if seen[f] {
			return false
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil {
						if relCall != nil && relCall(g) {
							return true
						}
						if e.p.InModule(g) && calls(g, seen) {
							return true
						}
					}
				}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					if calls(mc.Fn.(*ssa.Function), seen) {
						return true
					}
				}
			}
		}
		return false
	}
	return func(f *ssa.Function) bool {
		if v, ok := memo[f]; ok {
			return v
		}
		op := true
		if f.Parent() != nil || f.Synthetic != "" {
			op = false
		}
		if op {
			for k, t := range e.modSet(f) {
				if relMod(k) {
					op = false
				}
				if k[0] == 'P' && relMod("p:"+typeName(t)) {
					op = false
				}
			}
		}
		if op && relType != nil {
			r := f.Signature.Results()
			for i := 0; i < r.Len(); i++ {
				if relType(r.At(i).Type()) {
					op = false
				}
			}
		}
		if op && calls(f, map[*ssa.Function]bool{}) {
			op = false
		}
		memo[f] = op
		return op
	}
}

func (e *Engine) havocMods(st *State, m map[string]types.Type, c *Call) {
	if len(m) == 0 {
		return
	}
	for k := range m {
		if k[0] == 'V' || k[0] == 'Q' { // a function literal called by others than the function around it
			c2 := map[string]types.Type{}
			for k, t := range m {
				if k[0] != 'V' && k[0] != 'Q' {
					c2[k] = t
				}
			}
			for k, t := range m {
				if k[0] == 'V' || k[0] == 'Q' {
					c2["p:"+typeName(t)] = t
					if s, ok := t.Underlying().(*types.Struct); ok {
						for i := 0; i < s.NumFields(); i++ {
							c2["f:"+typeName(t)+"#"+s.Field(i).Name()] = t
						}
					}
				}
			}
			m = c2
			break
		}
	}
	for _, a := range c.Args {
		st.escapeVal(a)
	}
	local := func(a *Term) bool {
		r := rootOf(a)
		return st.fresh(r) && !st.esc[r]
	}
	for a := range st.heap {
		if local(a) {
			continue
		}
		hit := false
		switch a.op {
		case OField:
			_, hit = m["f:"+a.name]
			if !hit {
				_, hit = m["p:"+typeName(pointee(a))]
			}
		case OIndex:
			_, hit = m["e:"+typeName(pointee(a))]
		case OGlobal:
			_, hit = m["g:"+a.name]
		default:
			if pointee(a) != nil {
				_, hit = m["p:"+typeName(pointee(a))]
			}
		}
		if hit {
			delete(st.heap, a)
		}
	}
	for k, t := range m {
		switch k[0] {
		case 'P':
			i := 0
			for _, ch := range k[1:] {
				i = i*10 + int(ch-'0')
			}
			if i < len(c.Args) {
				st.havoc(c.Args[i])
			}
		case 'p':
			base := intern(OSym, "any:*"+typeName(t), types.NewPointer(t))
			if base.obj == nil {
				base.obj = &SymInfo{Kind: "param", What: base.name}
			}
			st.dirty[base] = true
		case 'f':
			s := t.Underlying().(*types.Struct)
			i := fieldIndex(s, k[strings.LastIndex(k, "#")+1:])
			base := intern(OSym, "any:"+typeName(t), types.NewPointer(t))
			if base.obj == nil {
				base.obj = &SymInfo{Kind: "param", What: base.name}
			}
			st.dirty[mkField(base, t, i)] = true
		case 'e':
			base := intern(OSym, "any:[]"+typeName(t), types.NewSlice(t))
			if base.obj == nil {
				base.obj = &SymInfo{Kind: "param", What: base.name}
			}
			st.dirty[mkIndexRaw(base, mkAll(""), types.NewPointer(t))] = true
		}
	}
}

func itoa(i int) string { return mkInt(int64(i)).name[1:] }

// ---- builtins ----

func (e *Engine) builtin(fr *frame, st *State, site ssa.CallInstruction, v ssa.Value, name string, args []*Term) []CallOut {
	ret := func(t *Term) []CallOut { return []CallOut{{St: st, Val: t}} }
	switch name {
	case "len":
		return ret(mkLen(args[0]))
	case "cap":
		return ret(intern(OCap, "", tInt, args[0]))
	case "append":
		return ret(e.doAppend(fr, st, site, v, args))
	case "copy":
		dst, src := args[0], args[1]
		if e.h.Copy != nil {
			e.h.Copy(e, st, dst, src, site)
		}
		et := elemType(site.Common().Args[0].Type())
		st.havoc(mkIndexRaw(dst, mkAll(""), types.NewPointer(et)))
		delete(st.cont, dst)
		st.tag(mkTag("copied", dst, src))
		n := e.newSym(fr, OSym, site, "n", tInt, &SymInfo{Kind: "copy", What: "copied"})
		st.assume(mkLe(n, mkLen(dst)), true)
		st.assume(mkLe(n, mkLen(src)), true)
		st.assume(mkLe(mkInt(0), n), true)
		return ret(n)
	case "panic":
		if e.h.Panic != nil {
			e.h.Panic(e, st, args[0], site)
		}
		return e.split(fr, []CallOut{{St: st, Kind: "panic"}}, site)
	case "print", "println", "close", "delete":
		return ret(mkTuple(nil))
	case "clear":
		if isSlice(site.Common().Args[0].Type()) {
			et := elemType(site.Common().Args[0].Type())
			a := mkIndexRaw(args[0], mkAll(""), types.NewPointer(et))
			st.havoc(a)
			if e.h.Clear != nil {
				e.h.Clear(e, st, args[0], site)
			}
			if !decomposable(et) {
				st.heap[a] = zeroTerm(et)
			}
		}
		return ret(mkTuple(nil))
	case "recover":
		return ret(e.newSym(fr, OSym, site, "rec", v.Type(), &SymInfo{Kind: "call", What: "recover"}))
	case "min", "max":
		t := intern(OCall, name, v.Type(), args...)
		if isInt(v.Type()) {
			for _, a := range args {
				if name == "min" {
					st.assume(mkLe(t, a), true)
				} else {
					st.assume(mkLe(a, t), true)
				}
			}
		}
		return ret(t)
	}
	if v != nil {
		return ret(e.symTuple(fr, site, v.Type(), name, args))
	}
	return ret(mkTuple(nil))
}

func (e *Engine) doAppend(fr *frame, st *State, site ssa.Instruction, v ssa.Value, args []*Term) *Term {
	base := args[0]
	typ := v.Type()
	if len(args) < 2 || args[1].isNil() {
		return base
	}
	src := args[1]
	var elems []*Term
	var spread *Term
	var n *Term
	if src.op == OSlice && src.args[0].op == OAlloc && src.args[1].isNil() && src.args[2].isNil() && arrayLen(src.args[0].typ) >= 0 && isVarargs(src.args[0]) {
		cnt := arrayLen(src.args[0].typ)
		n = mkInt(cnt)
		et := elemType(src.args[0].typ)
		for i := int64(0); i < cnt; i++ {
			x := e.peek(st, mkIndexRaw(src.args[0], mkInt(i), types.NewPointer(et)), et)
			if x == nil {
				x = mkSym(OSym, "unk:"+src.name+itoa(int(i)), et, &SymInfo{Kind: "load", What: "element"})
			}
			elems = append(elems, x)
		}
	} else {
		spread = src
		n = mkLen(src)
		if isString(src.typ) {
			n = mkLen(src)
		}
	}
	var res *Term
	empty := base.isNil()
	if empty {
		res = e.newSym(fr, OMake, site, "", typ, &SymInfo{Kind: "append", What: "append", Args: []*Term{base, src}}, n)
	} else {
		res = e.newSym(fr, OSym, site, "", typ, &SymInfo{Kind: "append", What: "append(" + strings.TrimPrefix(base.String(), "&") + ")", Args: []*Term{base, src}})
		// a previous value of the same symbol cannot be live: drop stale facts
		for f := range st.facts {
			if f.has(res) {
				delete(st.facts, f)
			}
		}
		for a := range st.heap {
			if a.has(res) && a.op == OIndex {
				delete(st.heap, a)
			}
		}
		st.assume(mkEqInt(mkLen(res), linAdd(mkLen(base), n)), true)
		if k, ok := n.intVal(); ok && k > 0 {
			st.assume(mkEq(res, mkNil()), false)
		}
	}
	if !trackContents(elemType(typ)) {
		if spread != nil {
			st.tag(mkTag("spread", res, spread))
			if empty {
				st.tag(mkTag("copied", res, spread))
			}
		}
		if e.h.Append != nil {
			e.h.Append(e, st, base, elems, spread, res, site)
		}
		return res
	}
	c := &Contents{closed: true, elems: append([]*Term(nil), elems...)}
	addBase := func(b *Term) {
		if isZeroLen(st, b) {
			return
		}
		if bc := st.cont[b]; bc != nil {
			c.elems = append(c.elems, bc.elems...)
			if bc.base != nil {
				if c.base == nil {
					c.base = bc.base
				} else if c.base != bc.base {
					c.closed = false
				}
			}
			c.closed = c.closed && bc.closed
			return
		}
		if c.base == nil {
			c.base = b
		} else if c.base != b {
			c.closed = false
		}
	}
	if !empty {
		addBase(base)
	}
	if spread != nil && !isString(spread.typ) {
		addBase(spread)
		st.tag(mkTag("spread", res, spread))
		if empty {
			st.tag(mkTag("copied", res, spread))
		}
	}
	c.elems = uniq(c.elems)
	sortTerms(c.elems)
	if len(c.elems) <= 32 {
		st.cont[res] = c
	}
	for t := range st.must {
		if t.op == OTag && t.name == "has" && t.args[0] == base {
			st.must[mkTag("has", res, t.args[1])] = true
		}
		if t.op == OTag && t.name == "has" && spread != nil && t.args[0] == spread {
			st.must[mkTag("has", res, t.args[1])] = true
		}
	}
	for _, x := range elems {
		st.must[mkTag("has", res, x)] = true
	}
	if !st.fresh(rootOf(base)) && !base.isNil() || st.esc[rootOf(base)] {
		for _, x := range elems {
			st.escapeVal(x)
		}
		if spread != nil {
			st.escapeVal(spread)
		}
	}
	if e.h.Append != nil {
		e.h.Append(e, st, base, elems, spread, res, site)
	}
	return res
}

func isVarargs(a *Term) bool {
	i := a.info()
	return i != nil && (i.What == "varargs" || i.What == "slicelit")
}

// trackContents: element types whose sequences are followed element by element.
func trackContents(t types.Type) bool {
	if t == nil {
		return false
	}
	switch t.Underlying().(type) {
	case *types.Basic:
		return isString(t)
	}
	return true
}
