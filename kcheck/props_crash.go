package main

import (
	"fmt"
	"go/token"
	"go/types"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C18: no operation crashes ----

func init() {
	register(&Check{ID: "C18", Run: checkC18,
		Explain: "Abstract interpretation of every function of the module and of the command on its own, with arbitrary arguments and over all paths (other exported operations are modelled, small helpers and closures followed). Obligations: every index is within the bounds of what it indexes, every slice expression and conversion to an array is within the length, every length given to make and every count given to strings.Repeat is not negative, no division by zero, no map is written that may be nil, no function calls itself on every way through it, no type assertion without a check that is not known to hold, no bound of the random number generator that is not positive, and no pointer that came back from a call is followed (or used as receiver) before it is known not to be nil; functions with a pointer and an error as results return a pointer whenever they report success (that is what their callers may rely on); the character table a codec works with is always one of CharacterTables; a panic is reached only where the source of randomness has failed.",
		Assume: []string{
			"the sizes of an instance (group size, key length, columns) are positive where operations use them (C29)",
			"pointers, callbacks and instances handed to an operation are not nil; records belong to an instance",
			"int does not overflow, there is enough memory, library functions given valid arguments do not panic",
			"operations on one store leave the lists of another as they are",
			"functions that wipe (C09) are not analysed here: they index slices through pointers to them"}})
}

func checkC18(c *Ctx) {
	for _, fn := range c.P.Funcs {
		if fn.Parent() != nil || len(fn.Blocks) == 0 || fn.Synthetic != "" || fn.Object() == nil || strings.Contains(fn.Name(), "Wipe") || c.inner(fn) {
			continue
		}
		for _, f := range c.crash(fn, true, nil) {
			if !c.fine(fn, f) {
				c.Ob(false, f.rule, f.fn.Name(), f.pos, "%s", f.text)
			}
		}
	}
	// closures that are handed to others (options, filters, actions)
	for _, fn := range c.P.Funcs {
		if fn.Parent() == nil || len(fn.Blocks) == 0 || strings.Contains(outermost(fn).Name(), "Wipe") {
			continue
		}
		seen := false
		for _, e := range c.engines {
			seen = seen || e.fnSeen[fn]
		}
		if !seen {
			for _, f := range c.crash(fn, true, nil) {
				c.Ob(false, f.rule, fn.Name(), f.pos, "%s", f.text)
			}
		}
	}
	// recursion without an end
	for _, fn := range c.P.Funcs {
		bad := false
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().StaticCallee() != nil && c.P.InModule(ci.Common().StaticCallee()) && c.P.reaches(ci.Common().StaticCallee(), fn) && always(b) {
					c.Ob(false, "recursion", fn.Name(), in.Pos(), "%s may call itself without an end", fn.Name())
					bad = true
				}
			}
		}
		if !bad {
			c.Ob(true, "recursion", fn.Name(), fn.Pos(), "")
		}
	}
	c.Need("index", 100)
	c.Need("slice", 20)
	c.Need("nil", 20)
	c.Need("result", 10)
	c.Need("table", 5)
	c.Need("panic", 2)
	c.Need("make", 10)
}

type crashFail struct {
	rule string
	fn   *ssa.Function
	pos  token.Pos
	text string
}

// fine: an obligation that could not be shown when root was interpreted is met
// all the same: the function it is in, which was followed from root, meets it
// whatever it is given; or root is only called by others, and meets it there.
func (c *Ctx) fine(root *ssa.Function, f crashFail) bool {
	fails := func(l []crashFail) bool {
		for _, x := range l {
			if x.fn == f.fn && x.pos == f.pos && x.rule == f.rule {
				return true
			}
		}
		return false
	}
	if f.fn != root {
		return !fails(c.crash(f.fn, false, nil))
	}
	if root.Object().Exported() || !c.called(root) {
		return false
	}
	callers := map[*ssa.Function]bool{}
	c.P.eachCall(func(in ssa.CallInstruction, fn *ssa.Function, _ string) {
		if in.Common().StaticCallee() == root && outermost(fn) != root {
			callers[outermost(fn)] = true
		}
	})
	for g := range callers {
		if fails(c.crash(g, true, map[*ssa.Function]bool{root: true})) {
			return false
		}
	}
	return true
}

// always: every way from the start of its function to a return leads through b.
func always(b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{b: true}
	todo := []*ssa.BasicBlock{b.Parent().Blocks[0]}
	for len(todo) > 0 {
		x := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		if seen[x] {
			continue
		}
		seen[x] = true
		if _, ok := x.Instrs[len(x.Instrs)-1].(*ssa.Return); ok {
			return false
		}
		todo = append(todo, x.Succs...)
	}
	return true
}

// inner: an unexported function that is (only) followed where it is called.
func (c *Ctx) inner(f *ssa.Function) bool {
	if f.Object() == nil || f.Object().Exported() || !c.P.InModule(f) {
		return false
	}
	if rc := f.Signature.Recv(); rc != nil {
		if nm, ok := pointeeOr(rc.Type()).(*types.Named); ok && !nm.Obj().Exported() {
			return false
		}
	}
	return c.called(f) && c.NewEngine(Hooks{}).isPart(f, f)
}

// called: the function is called, is never used as a value and not recursive.
func (c *Ctx) called(f *ssa.Function) bool {
	if c.onlyCalled == nil {
		c.onlyCalled = map[*ssa.Function]bool{}
		taken := map[*ssa.Function]bool{}
		for _, fn := range c.P.Funcs {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					var callee ssa.Value
					if ci, ok := in.(ssa.CallInstruction); ok {
						callee = ci.Common().Value
						if g := ci.Common().StaticCallee(); g != nil && outermost(fn) != g {
							c.onlyCalled[g] = true
						}
					}
					var ops [16]*ssa.Value
					for _, o := range in.Operands(ops[:0]) {
						if o != nil && *o != nil && *o != callee {
							if f, ok := (*o).(*ssa.Function); ok {
								taken[f] = true
							}
						}
					}
				}
			}
		}
		for f := range c.onlyCalled {
			if taken[f] {
				delete(c.onlyCalled, f)
			} else {
				for _, b := range f.Blocks {
					for _, in := range b.Instrs {
						if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().StaticCallee() != nil && c.P.reaches(ci.Common().StaticCallee(), f) {
							delete(c.onlyCalled, f)
						}
					}
				}
			}
		}
	}
	return c.onlyCalled[f]
}

// sizes are the fields of an instance that hold a number above zero (C29).
var sizeFields = map[string]bool{"GroupSize": true, "KeyLength": true, "Columns": true, "KeyColumns": true}

// nonneg: t is not negative (no overflow).
func nonneg(st *State, t *Term, d int) bool {
	if k, ok := t.intVal(); ok {
		return k >= 0
	}
	if isInt(t.typ) && st.truth(mkLe(mkInt(0), t)) == 1 {
		return true
	}
	if d > 8 {
		return false
	}
	switch t.op {
	case OConv:
		return nonneg(st, t.args[0], d+1)
	case OBin:
		switch t.name {
		case "/":
			d1 := t.args[1]
			for d1.op == OConv {
				d1 = d1.args[0]
			}
			if k, ok := d1.intVal(); !(ok && k > 0) && !(isInt(d1.typ) && st.truth(mkLe(mkInt(1), d1)) == 1) {
				return false
			}
			return nonneg(st, t.args[0], d+1)
		case "*", "+", "%":
			return nonneg(st, t.args[0], d+1) && nonneg(st, t.args[1], d+1)
		}
	case OCall:
		if strings.HasSuffix(t.name, "math.Ceil") || strings.HasSuffix(t.name, "math.Floor") {
			return nonneg(st, t.args[0], d+1)
		}
		if t.name == "len" || t.name == "cap" {
			return true
		}
	}
	if isInt(t.typ) {
		l := lin(t)
		if l.c < 0 || len(l.atoms) == 0 || len(l.atoms) == 1 && l.atoms[t] != 0 {
			return false
		}
		for a, k := range l.atoms {
			if k < 0 || !nonneg(st, a, d+1) {
				return false
			}
		}
		return true
	}
	return false
}

// atMost: a is not above b.
func atMost(st *State, a, b *Term) bool {
	return st.truth(mkLe(a, b)) == 1 || nonneg(st, a, 0) && st.truth(mkLe(linAdd(a, a), b)) == 1
}

// setsKey: a method that sets the persistence key of an instance, or fails.
func setsKey(f *ssa.Function) bool {
	return f.Signature.Recv() != nil && lastError(f.Signature.Results()) && strings.Contains(f.Name(), "PFK")
}

// fluent: a method that returns its receiver (or another record of the kind),
// to be called in chains.
func fluent(f *ssa.Function) bool {
	rc, res := f.Signature.Recv(), f.Signature.Results()
	return rc != nil && res.Len() == 1 && isPtr(rc.Type()) && types.Identical(rc.Type(), res.At(0).Type())
}

// readFrom: the variable of the enclosing functions that v is read from, if it
// is one, else nil.
func readFrom(v ssa.Value) *ssa.Alloc {
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		return slotOf(u.X)
	}
	return nil
}

func slotOf(v ssa.Value) *ssa.Alloc {
	a, _ := variable(v).(*ssa.Alloc)
	return a
}

// storesTo: what is stored to a variable, in its function and the closures.
func storesTo(a *ssa.Alloc) []ssa.Value {
	var out []ssa.Value
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok && slotOf(s.Addr) == a {
					out = append(out, s.Val)
				}
			}
		}
		for _, g := range f.AnonFuncs {
			walk(g)
		}
	}
	walk(a.Parent())
	return out
}

// same: the two are the same value (or the same variable).
func same(a, b ssa.Value) bool { return a == b || readFrom(a) != nil && readFrom(a) == readFrom(b) }

// filled: lo counts what has been copied into s so far:
// lo = 0, then lo += copy(s[lo:], ...) - never more than len(s).
func filled(lo ssa.Value, s ssa.Value) bool {
	if v := readFrom(s); v != nil {
		if st := storesTo(v); len(st) != 1 {
			return false
		}
	}
	made := func(b *ssa.BasicBlock) bool { // s is made before b, and anew whenever b is
		if v := readFrom(s); v != nil {
			return v.Block() == b || v.Parent() != b.Parent() || v.Block().Dominates(b)
		}
		in, ok := s.(ssa.Instruction)
		return !ok || in.Block().Parent() != b.Parent() || in.Block().Dominates(b)
	}
	seen := map[ssa.Value]bool{}
	var ok func(v ssa.Value) bool
	ok = func(v ssa.Value) bool {
		if seen[v] {
			return true
		}
		seen[v] = true
		if a := readFrom(v); a != nil {
			if a.Parent() != s.Parent() && readFrom(s) == nil {
				return false
			}
			if sv := readFrom(s); sv != nil && sv.Block() != a.Block() {
				return false
			} else if in, isI := s.(ssa.Instruction); sv == nil && (!isI || in.Block() != a.Block()) {
				return false
			}
			for _, x := range storesTo(a) {
				if !seen[x] && !ok(x) {
					return false
				}
			}
			return true
		}
		switch v := v.(type) {
		case *ssa.Const:
			return v.Value != nil && v.Int64() == 0
		case *ssa.Phi:
			if !made(v.Block()) {
				return false
			}
			for _, x := range v.Edges {
				if !ok(x) {
					return false
				}
			}
			return true
		case *ssa.BinOp:
			if v.Op != token.ADD {
				return false
			}
			x, y := v.X, v.Y
			for i := 0; i < 2; i++ {
				if cl, isC := y.(*ssa.Call); isC {
					if b, isB := cl.Call.Value.(*ssa.Builtin); isB && b.Name() == "copy" {
						if sl, isS := cl.Call.Args[0].(*ssa.Slice); isS && same(sl.X, s) && sl.Low != nil && same(sl.Low, x) && sl.High == nil {
							return ok(x)
						}
					}
				}
				x, y = y, x
			}
		}
		return false
	}
	return ok(lo)
}

// crash interprets one function, following parts and the functions in also,
// and returns the obligations that could not be shown.
func (c *Ctx) crash(fn *ssa.Function, parts bool, also map[*ssa.Function]bool) []crashFail {
	name := fn.Name()
	var fails []crashFail
	obAt := func(ok bool, rule string, f *ssa.Function, pos token.Pos, format string, args ...any) {
		if ok {
			c.Ob(true, rule, name, pos, "")
			return
		}
		fails = append(fails, crashFail{rule, f, pos, fmt.Sprintf(format, args...)})
	}
	ob := func(ok bool, rule string, in ssa.Instruction, format string, args ...any) {
		obAt(ok, rule, outermost(in.Parent()), in.Pos(), format, args...)
	}
	isCodec := func(a *Term, field string) bool { return fieldName(a) == "codecState."+field }
	// KeyLength and the like
	plain := func(f *ssa.Function) bool {
		r := f.Signature.Results()
		return len(f.Blocks) == 1 && len(f.Params) == 1 && r.Len() == 1 && isInt(r.At(0).Type())
	}
	opaque := func(f *ssa.Function) bool {
		return f != fn && f.Parent() == nil && !plain(f) && !(parts && c.inner(f)) && !also[f]
	}
	nonNil := func(e *Engine, st *State, p *Term, how string, in ssa.Instruction) {
		if !isPtr(p.typ) {
			return
		}
		if st.mayTag(mkTag("optional", p)) {
			ob(isNilT(st, p) == -1, "nil", in, "%s %s %s, which may be nil", name, how, what(p))
			return
		}
		if p.op != OSym {
			return
		}
		if si, ok := p.obj.(*SymInfo); !ok || si.Kind != "call" {
			return
		}
		ob(isNilT(st, p) == -1, "nil", in, "%s %s %s, which may be nil", name, how, p)
	}
	e := c.NewEngine(Hooks{
		Opaque:  opaque,
		EssCell: func(a *Term) bool { return strings.HasSuffix(fieldName(a), ".persistenceKey") },
		Call: func(e *Engine, st *State, cl *Call) ([]CallOut, bool) {
			n := cl.full()
			switch n {
			case "strings.Repeat", "bytes.Repeat":
				ob(nonneg(st, cl.Args[1], 0), "make", cl.Site, "%s repeats a string %s times, which may be negative", name, cl.Args[1])
			case "(*strings.Builder).Grow", "(*bytes.Buffer).Grow", "slices.Grow":
				ob(nonneg(st, cl.Args[1], 0), "make", cl.Site, "%s grows a buffer by %s, which may be negative", name, cl.Args[1])
			case "(*bytes.Buffer).Truncate", "slices.Insert", "slices.Delete", "slices.Replace", "reflect.ValueOf":
				ob(false, "make", cl.Site, "%s calls %s, which panics for some arguments", name, n)
			case "time.NewTicker", "time.Tick":
				ob(st.truth(mkLt(mkInt(0), cl.Args[0])) == 1, "make", cl.Site, "%s asks for ticks every %s, which may not be positive", name, cl.Args[0])
			case "regexp.MustCompile":
				s, ok := cl.Args[0].strVal()
				if ok {
					_, err := regexp.Compile(s)
					ok = err == nil
				}
				ob(ok, "pattern", cl.Site, "%s compiles a pattern that may not be a regular expression", name)
			case "strings.HasPrefix", "strings.HasSuffix":
				if s, ok := cl.Args[1].strVal(); ok {
					b := st.clone()
					st.assume(mkLe(mkInt(int64(len(s))), mkLen(cl.Args[0])), true)
					return []CallOut{{St: st, Val: mkBool(true)}, {St: b, Val: mkBool(false)}}, true
				}
			}
			if strings.HasSuffix(n, ".Intn") || strings.HasSuffix(n, ".Int63n") || strings.HasSuffix(n, ".Int31n") {
				a := cl.Args[len(cl.Args)-1]
				if cl.Fn == nil || fn.Name() != cl.Fn.Name() {
					ob(st.truth(mkLt(mkInt(0), a)) == 1, "random", cl.Site, "%s asks for a random number below %s, which may not be positive", name, a)
				}
			}
			if cl.Fn == nil || !c.P.InModule(cl.Fn) {
				if cl.Res != nil && lastError(cl.Res) && n != "fmt.Errorf" && !strings.HasPrefix(n, "errors.") {
					e.effects(st, cl)
					return fallible(e, st, cl, nil, func(st *State, res []*Term) {
						if n == "encoding/binary.Read" || n == "crypto/rand.Read" || strings.HasSuffix(n, "/crand.Read") {
							st.tag(mkTag("norandom"))
						}
					}), true
				}
				return nil, false
			}
			if cl.Fn.Signature.Recv() != nil && len(cl.Args) > 0 {
				nonNil(e, st, cl.Args[0], "calls "+cl.Fn.Name()+" of", cl.Site)
			}
			if !opaque(cl.Fn) || parts && e.isPart(cl.Fn, fn) {
				return nil, false
			}
			// other stores
			var keep []struct{ a, v *Term }
			for _, t := range tagsNamed(st.must, "store") {
				used := false
				for _, a := range cl.Args {
					used = used || a == t.args[0]
				}
				if !used {
					for _, f := range []string{"Keys", "Messages"} {
						if a := fieldOf(t.args[0], f); a != nil {
							if v := e.readAt(st, a); v != nil {
								keep = append(keep, struct{ a, v *Term }{a, v})
							}
						}
					}
				}
			}
			e.effects(st, cl)
			for _, x := range keep {
				st.store(x.a, x.v, pointee(x.a))
			}
			if cl.Res == nil {
				return []CallOut{{St: st}}, true
			}
			if lastError(cl.Res) {
				return fallible(e, st, cl, func(st *State, res []*Term) {
					if setsKey(cl.Fn) {
						if a := fieldOf(cl.Args[0], "persistenceKey"); a != nil {
							v := e.newSym(e.curFr, OSym, cl.Site, "pfk", pointee(a), &SymInfo{Kind: "pfk", What: "the persistence key"})
							st.store(a, v, pointee(a))
							st.assume(mkEq(v, mkNil()), false)
						}
					}
					if len(res) > 1 && isPtr(res[0].typ) {
						st.assume(mkEq(res[0], mkNil()), false)
					}
				}, func(st *State, res []*Term) {
					if strings.HasSuffix(n, "/crand.Read") {
						st.tag(mkTag("norandom"))
					}
				}), true
			}
			res := e.Result(cl)
			if fluent(cl.Fn) {
				st.assume(mkEq(res, mkNil()), false)
			}
			return []CallOut{{St: st, Val: res}}, true
		},
		Load: func(e *Engine, st *State, addr, val *Term, in ssa.Instruction) {
			if addr.op != OField {
				return
			}
			if f := fieldName(addr); f == "Krypto431.persistenceKey" || f == "Krypto431.salt" || f == "chunk.key" {
				setTag(st, mkTag("optional", val), true)
			}
			if !isInt(val.typ) {
				return
			}
			switch f := fieldName(addr); {
			case strings.HasPrefix(f, "Krypto431.") && sizeFields[f[10:]]:
				if _, ok := val.intVal(); !ok {
					st.assume(mkLe(mkInt(1), val), true)
				}
			case isCodec(addr, "numberOfTables"):
				st.assume(mkLe(mkInt(1), val), true)
				st.tag(mkTag("tables", val))
			case isCodec(addr, "table"):
				st.tag(mkTag("table", val))
				st.assume(mkLe(mkInt(0), val), true)
			}
		},
		Store: func(e *Engine, st *State, addr, val *Term, in ssa.Instruction) {
			if addr.op == OAlloc && val.typ != nil && !isPtr(val.typ) && isModType(c.P, val.typ, "Krypto431") && pointee(addr) != nil {
				st.tag(mkTag("store", addr)) // a new store
			}
			if addr.op != OField || !isInt(val.typ) {
				return
			}
			switch {
			case isCodec(addr, "numberOfTables"):
				ob(val.op == OLen && strings.HasSuffix(val.args[0].String(), "CharacterTables"), "table", in, "%s may set the number of tables to something else than there are", name)
			case isCodec(addr, "table"):
				k, isK := val.intVal()
				ok := isK && k == 0 || st.hasTag(mkTag("table", val))
				for _, t := range tagsNamed(st.must, "tables") {
					n := t.args[0]
					ok = ok || nonneg(st, val, 0) && (st.truth(mkLt(val, n)) == 1 || val.op == OBin && val.name == "%" && val.args[1] == n)
				}
				ob(ok, "table", in, "%s may go to table %s, which there is not", name, val)
			}
		},
		Index: func(e *Engine, st *State, base, idx, length *Term, in ssa.Instruction) {
			if st.hasTag(mkTag("table", idx)) && strings.HasSuffix(base.String(), "CharacterTables") {
				ob(true, "index", in, "")
				return
			}
			ok := nonneg(st, idx, 0) && st.truth(mkLt(idx, length)) == 1
			ob(ok, "index", in, "%s: index %s of %s may be out of range", name, idx, what(base))
		},
		Slice: func(e *Engine, st *State, base, lo, hi *Term, in ssa.Instruction) {
			x := in.(*ssa.Slice)
			n := mkLen(base)
			if k := arrayLen(x.X.Type()); k >= 0 {
				n = mkInt(k)
			}
			if hi.isNil() && x.Low != nil && filled(x.Low, x.X) {
				ob(true, "slice", in, "")
				return
			}
			if lo.isNil() {
				lo = mkInt(0)
			}
			if hi.isNil() {
				hi = n
			}
			ok := nonneg(st, lo, 0) && atMost(st, lo, hi) && atMost(st, hi, n)
			ob(ok, "slice", in, "%s: %s[%s:%s] may be out of range", name, what(base), lo, hi)
		},
		MapUpd: func(e *Engine, st *State, m, k, v *Term, in ssa.Instruction) {
			ob(m.nonNil() || m.op == OMake || isNilT(st, m) == -1, "map", in, "%s sets an element of %s, which may be nil", name, what(m))
		},
		Div: func(e *Engine, st *State, y *Term, in ssa.Instruction) {
			k, ok := y.intVal()
			ob(ok && k != 0 || st.truth(mkEq(y, mkInt(0))) == -1 || st.truth(mkLt(mkInt(0), y)) == 1, "div", in, "%s divides by %s, which may be zero", name, y)
		},
		Assert: func(e *Engine, st *State, x *Term, in ssa.Instruction) {
			ob(false, "assert", in, "%s asserts the type of %s", name, what(x))
		},
		MakeLen: func(e *Engine, st *State, n, cp *Term, in ssa.Instruction) {
			if k, ok := n.intVal(); ok && k == 0 {
				n = cp
			} else if n != cp {
				ob(st.truth(mkLe(n, cp)) == 1, "make", in, "%s makes a slice of length %s and capacity %s", name, n, cp)
			}
			if si, ok := n.obj.(*SymInfo); ok && n.op == OSym && si.Kind == "param" && fn.Object().Exported() {
				ob(true, "make", in, "")
				return // asked for
			}
			ob(nonneg(st, n, 0), "make", in, "%s makes a slice of length %s, which may be negative", name, n)
		},
		Deref: func(e *Engine, st *State, p *Term, in ssa.Instruction) { nonNil(e, st, p, "follows", in) },
		Panic: func(e *Engine, st *State, v *Term, in ssa.Instruction) {
			ob(st.hasTag(mkTag("norandom")), "panic", in, "%s panics (with %s)", name, what(v))
		},
		ToArray: func(e *Engine, st *State, x *Term, n int64, in ssa.Instruction) {
			ob(st.truth(mkLe(mkInt(n), mkLen(x))) == 1, "array", in, "%s: %s may be shorter than the array it is converted to", name, what(x))
		},
		Return: func(e *Engine, st *State, f *ssa.Function, depth int, vals []*Term, pos token.Pos) {
			if depth == 0 && fluent(fn) {
				obAt(vals[0].nonNil() || isNilT(st, vals[0]) == -1 || vals[0] == e.Param(fn, fn.Params[0]), "result", fn, pos, "%s may return nil", name)
			}
			if depth == 0 && setsKey(fn) && succeeds(st, f, vals) != -1 {
				v := e.readAt(st, fieldOf(e.Param(fn, fn.Params[0]), "persistenceKey"))
				obAt(v != nil && (v.nonNil() || isNilT(st, v) == -1), "result", fn, pos, "%s may report success without having set the persistence key", name)
			}
			if depth != 0 || len(vals) < 2 || !isPtr(vals[0].typ) && !vals[0].isNil() || !isPtr(fn.Signature.Results().At(0).Type()) || !lastError(fn.Signature.Results()) || succeeds(st, f, vals) == -1 {
				return
			}
			obAt(vals[0].nonNil() || isNilT(st, vals[0]) == -1, "result", fn, pos, "%s may report success and return nil", name)
		},
	})
	e.Run(fn, nil)
	return fails
}
