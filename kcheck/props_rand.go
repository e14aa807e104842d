package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C02", Run: checkC02, Explain: "Scan of every use of math/rand in the module (the generator must be rand.New over a source of this module, never replaced), and abstract interpretation of the source, of every exported function of the package of random numbers, of NewKey, GeneratePFK and GenerateSalt. Rules: the source only returns values read in full from crypto/rand and does not return when reading fails; each exported function hands on exactly the draw of the same name; every letter of a new key and of its id is 'A' plus its own draw of 26 values (a draw is spent by its first use); the bytes that are printed as a key or salt were filled by the random number generator, whose error was checked, and not touched since.",
		Assume: []string{"math/rand turns a uniform source into uniform numbers", "crypto/rand is the random number generator of the operating system"}})
	register(&Check{ID: "C03", Run: checkC03, Explain: "Abstract interpretation of NewKey over all paths. Rules at the point where the key is added to the store: the id has the group size and was compared with the id of every key of the store without being equal; the key has at least the configured number of letters; it is not marked used or compromised, expires when asked and belongs to the instance; it is added exactly once, and nothing else of the store changes. GenerateKeys passes expiry time and keepers on.",
		Assume: []string{"key lengths below 2^53"}})
}

// origins follows a value back through variables, parameters and results of
// module functions to what it was made by.
func (ce *constEval) origins(v ssa.Value, seen map[ssa.Value]bool) (l []ssa.Value) {
	if seen[v] {
		return nil
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Phi:
		for _, e := range x.Edges {
			l = append(l, ce.origins(e, seen)...)
		}
		return l
	case *ssa.ChangeType:
		return ce.origins(x.X, seen)
	case *ssa.ChangeInterface:
		return ce.origins(x.X, seen)
	case *ssa.MakeInterface:
		return ce.origins(x.X, seen)
	case *ssa.Extract:
		if x.Index == 0 {
			return ce.origins(x.Tuple, seen)
		}
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return []ssa.Value{v}
		}
		switch a := x.X.(type) {
		case *ssa.Global:
			if !ce.p.InModulePkg(a.Pkg) || ce.glBad[a] || len(ce.gl[a]) == 0 {
				return []ssa.Value{v}
			}
			for _, s := range ce.gl[a] {
				if s.Parent().Name() != "init" {
					return []ssa.Value{v} // replaced while the program runs
				}
				l = append(l, ce.origins(s.Val, seen)...)
			}
			return l
		case *ssa.Alloc:
			for _, r := range *a.Referrers() {
				switch r := r.(type) {
				case *ssa.Store:
					if r.Addr != a {
						return []ssa.Value{v}
					}
					l = append(l, ce.origins(r.Val, seen)...)
				case *ssa.UnOp, *ssa.DebugRef:
				default:
					return []ssa.Value{v}
				}
			}
			return l
		}
	case *ssa.Parameter:
		fn := x.Parent()
		if ce.taken[fn] || len(ce.calls[fn]) == 0 || fn.Object() != nil && fn.Object().Exported() {
			return []ssa.Value{v}
		}
		for i, p := range fn.Params {
			if p == x {
				for _, c := range ce.calls[fn] {
					if i < len(c.Common().Args) {
						l = append(l, ce.origins(c.Common().Args[i], seen)...)
					}
				}
			}
		}
		return l
	case *ssa.Call:
		f := x.Common().StaticCallee()
		if f == nil || !ce.p.InModule(f) || len(f.Blocks) == 0 {
			return []ssa.Value{v}
		}
		for _, b := range f.Blocks {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(r.Results) > 0 {
				l = append(l, ce.origins(r.Results[0], seen)...)
			}
		}
		return l
	}
	return []ssa.Value{v}
}

func callName(v ssa.Value) (string, *ssa.CallCommon) {
	if c, ok := v.(*ssa.Call); ok {
		if f := c.Common().StaticCallee(); f != nil {
			return f.String(), c.Common()
		}
	}
	return "", nil
}

// osRandom: a reader of the random numbers of the operating system.
func (ce *constEval) osRandom(v ssa.Value) bool {
	l := ce.origins(v, map[ssa.Value]bool{})
	for _, o := range l {
		if u, ok := o.(*ssa.UnOp); ok && u.Op == token.MUL {
			if g, ok := u.X.(*ssa.Global); ok && g.String() == "crypto/rand.Reader" {
				continue
			}
		}
		if n, c := callName(o); n == "bufio.NewReader" || n == "bufio.NewReaderSize" {
			if ce.osRandom(c.Args[0]) {
				continue
			}
		}
		return false
	}
	return len(l) > 0
}

type randRun struct {
	c  *Ctx
	ce *constEval
}

// fills: the calls that fill a slice (or variable) with random numbers of the
// operating system, or nil. p is what is filled.
func (r *randRun) fills(cl *Call) (p *Term, ok bool) {
	var reader ssa.Value
	args := cl.Site.Common().Args
	switch {
	case cl.std("crypto/rand.Read"):
		return cl.Args[0], true
	case cl.std("encoding/binary.Read"):
		reader, p = args[0], unwrap(cl.Args[2])
	case cl.std("io.ReadFull"):
		reader, p = args[0], cl.Args[1]
	case cl.full() == "invoke:(io.Reader).Read" || cl.Name == "(io.Reader).Read":
		reader, p = cl.Site.Common().Value, cl.Args[len(cl.Args)-1]
	default:
		return nil, false
	}
	return p, r.ce.osRandom(reader)
}

// modelFill: reading random numbers fails or fills everything.
func (r *randRun) modelFill(e *Engine, st *State, cl *Call) ([]CallOut, bool) {
	p, ok := r.fills(cl)
	if !ok || p == nil {
		return nil, false
	}
	r.c.count("reads_of_random_numbers", 1)
	outs := fallible(e, st, cl, func(st *State, res []*Term) {
		r.filled(e, st, cl, p)
		if len(res) == 2 {
			if s := r.sliceOf(e, st, p); s != nil {
				st.assume(mkEqInt(res[0], mkLen(s)), true)
			}
		}
	}, func(st *State, res []*Term) {
		if s := r.sliceOf(e, st, p); s != nil {
			r.spoil(st, s)
		}
	})
	return outs, true
}

// sliceOf is the slice p is or points to.
func (r *randRun) sliceOf(e *Engine, st *State, p *Term) *Term {
	if isSlice(p.typ) {
		return p
	}
	if t := pointee(p); t != nil && isSlice(t) {
		return e.readAt(st, p)
	}
	return nil
}

func (r *randRun) filled(e *Engine, st *State, cl *Call, p *Term) {
	if s := r.sliceOf(e, st, p); s != nil {
		s = wholeOf(st, s)
		setTag(st, mkTag("spoiled", s), false)
		st.tag(mkTag("filled", s))
		return
	}
	if t := pointee(p); t != nil && isInt(t) {
		v := e.newSym(e.curFr, OSym, cl.Site, "rnd", t, &SymInfo{Kind: "call", What: "random number"})
		st.store(p, v, t)
		st.tag(mkTag("random", v))
	}
}

// wholeOf is what s is all of.
func wholeOf(st *State, s *Term) *Term {
	for s.op == OSlice && st.truth(mkEqInt(mkLen(s), mkLen(s.args[0]))) == 1 {
		s = s.args[0]
	}
	return s
}

func (r *randRun) spoil(st *State, s *Term) {
	s = wholeOf(st, s)
	for _, n := range []string{"filled", "letters"} {
		setTag(st, mkTag(n, s), false)
	}
	st.tag(mkTag("spoiled", s))
}

// whole: the slice has been filled with random numbers and nothing else.
func whole(st *State, s *Term) bool {
	// slicing all of it
	s = wholeOf(st, s)
	return st.hasTag(mkTag("filled", s)) && !st.mayTag(mkTag("spoiled", s))
}

// stores and calls that overwrite a filled slice
func (r *randRun) touch(st *State, s *Term) {
	if s == nil {
		return
	}
	for _, n := range []string{"filled"} {
		for _, t := range tagsNamed(st.may, n) {
			if t.args[0] == s || rootOf(t.args[0]) == rootOf(s) && s.op == OSlice {
				r.spoil(st, t.args[0])
			}
		}
	}
}

// modelCrand: the functions of the package of random numbers by their contract,
// which C02 checks on their bodies.
func (r *randRun) modelCrand(e *Engine, st *State, cl *Call) ([]CallOut, bool) {
	switch {
	case cl.is(r.c.P, "crand", "Read", "ReadRunes"):
		p := cl.Args[0]
		return fallible(e, st, cl, func(st *State, res []*Term) {
			r.filled(e, st, cl, p)
			st.assume(mkEqInt(res[0], mkLen(p)), true)
		}, func(st *State, res []*Term) { r.spoil(st, p) }), true
	case cl.is(r.c.P, "crand", "Intn", "Int31n", "Int63n"):
		v := e.Result(cl)
		st.assume(mkLe(mkInt(0), v), true)
		st.assume(mkLt(v, cl.Args[0]), true)
		for _, t := range tagsNamed(st.may, "unspent") {
			if t.args[0] == v {
				setTag(st, t, false)
			}
		}
		st.tag(mkTag("unspent", v, cl.Args[0]))
		r.c.count("draws", 1)
		return []CallOut{{St: st, Val: v}}, true
	}
	return nil, false
}

// letter: v is a letter A-Z made by a draw of 26 values nothing else was made of.
func (r *randRun) letter(st *State, v *Term) *Term {
	isDraw := func(d *Term, n int64) *Term {
		t := mkTag("unspent", d, mkInt(n))
		if st.hasTag(t) {
			return t
		}
		return nil
	}
	for v.op == OConv {
		v = v.args[0]
	}
	if v.op == OCall && v.name == "index" {
		if s, ok := v.args[0].strVal(); ok && len(s) == 26 {
			seen := map[rune]bool{}
			for _, c := range s {
				seen[c] = c >= 'A' && c <= 'Z'
			}
			n := 0
			for _, ok := range seen {
				if ok {
					n++
				}
			}
			if n == 26 {
				return isDraw(v.args[1], 26)
			}
		}
		return nil
	}
	l := lin(v)
	if len(l.atoms) == 1 && l.c == 'A' {
		for a, k := range l.atoms {
			if k == 1 {
				return isDraw(a, 26)
			}
		}
	}
	if len(l.atoms) == 1 && l.c == 'Z' {
		for a, k := range l.atoms {
			if k == -1 {
				return isDraw(a, 26)
			}
		}
	}
	return nil
}

// onStore follows what is put in slices of runes.
func (r *randRun) onStore(e *Engine, st *State, addr, val *Term, in ssa.Instruction) {
	if addr.op != OIndex {
		return
	}
	base := addr.args[0]
	r.touch(st, base)
	for _, t := range tagsNamed(st.may, "ne") {
		if t.args[1] == base {
			setTag(st, t, false)
		}
	}
	setTag(st, mkTag("letters", base), false)
	if t := r.letter(st, val); t != nil {
		setTag(st, t, false)
		st.tag(mkTag("letter", addr))
		return
	}
	if pt := pointee(addr); pt != nil && isInt(pt) && !isVarargs(rootOf(addr)) {
		st.tag(mkTag("spoiled", base))
	}
}

func (r *randRun) onAppend(e *Engine, st *State, base *Term, elems []*Term, spread, res *Term, in ssa.Instruction) {
	if res == nil || !isSlice(res.typ) || !isInt(elemType(res.typ)) {
		return
	}
	ok := st.hasTag(mkTag("letters", base)) || base.isNil() || st.truth(mkEqInt(mkLen(base), mkInt(0))) == 1
	if spread != nil {
		ok = ok && r.letters(st, spread)
		r.spoil(st, spread) // moved: a draw is for one letter
	}
	for _, x := range elems {
		t := r.letter(st, x)
		if t == nil {
			ok = false
			continue
		}
		setTag(st, t, false)
	}
	setTag(st, mkTag("letters", res), ok)
	if !ok {
		st.tag(mkTag("spoiled", res))
	} else {
		setTag(st, mkTag("spoiled", res), false)
	}
}

// letters: every element of the slice is a letter with a draw of its own.
func (r *randRun) letters(st *State, s *Term) bool {
	if s == nil || st.mayTag(mkTag("spoiled", s)) {
		return false
	}
	if st.hasTag(mkTag("letters", s)) || st.truth(mkEqInt(mkLen(s), mkInt(0))) == 1 {
		return true
	}
	for _, t := range tagsNamed(st.must, "letter") {
		if a := t.args[0]; a.args[0] == s && a.args[1].isWhole() {
			return true
		}
	}
	return false
}

// ---- C02 ----

func checkC02(c *Ctx) {
	ce := newConstEval(c.P)
	r := &randRun{c: c, ce: ce}
	sources := r.scan()
	for _, s := range sources {
		r.source(s)
	}
	r.frontends()
	r.newKey(func(e *Engine, st *State, k, key *Term, field func(n string) *Term, pos token.Pos) {
		c.Ob(r.letters(st, field("Runes")), "letters-are-draws", "NewKey.Runes", pos, "a letter of a new key may not be made of a draw of its own of the 26 letters")
		c.Ob(r.letters(st, field("Id")), "letters-are-draws", "NewKey.Id", pos, "a letter of the id of a new key may not be made of a draw of its own of the 26 letters")
	}, nil)
	c.Need("letters-are-draws", 2)
	r.secret("GeneratePFK", 32, true)
	r.secret("GenerateSalt", 32, false)
	c.Need("random-bytes", 2)
}

// scan looks at all uses of math/rand and returns the sources of this module.
func (r *randRun) scan() (sources []types.Type) {
	c, ce := r.c, r.ce
	seen := map[string]bool{}
	fns := append([]*ssa.Function(nil), c.P.Funcs...)
	have := map[*ssa.Function]bool{}
	for _, f := range fns {
		have[f] = true
	}
	for _, sp := range c.P.SPkg {
		if f := sp.Func("init"); f != nil && !have[f] {
			fns = append(fns, f)
		}
	}
	for _, fn := range fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var ops [16]*ssa.Value
				for _, o := range in.Operands(ops[:0]) {
					if o == nil || *o == nil {
						continue
					}
					f, ok := (*o).(*ssa.Function)
					if !ok {
						continue
					}
					var pk *types.Package
					if f.Object() != nil {
						pk = f.Object().Pkg()
					}
					if pk == nil || pk.Path() != "math/rand" && pk.Path() != "math/rand/v2" && !strings.HasSuffix(pk.Path(), "exp/rand") {
						continue
					}
					who := shortName(fn.String())
					ci, isCall := in.(ssa.CallInstruction)
					isCall = isCall && ci.Common().StaticCallee() == f
					if f.Name() == "New" && isCall {
						for _, src := range ce.origins(ci.Common().Args[0], map[ssa.Value]bool{}) {
							t := src.Type()
							n := namedOf(t)
							ok := n != nil && inModulePkg(n.Obj().Pkg())
							c.Ob(ok, "source-of-this-module", who, in.Pos(), "%s makes a generator of %s, which is not the operating system's", who, src)
							if ok && !seen[n.String()] {
								seen[n.String()] = true
								sources = append(sources, t)
							}
						}
						continue
					}
					if f.Signature.Recv() != nil && (isCall || strings.HasSuffix(f.Name(), "$bound")) && len(ci.Common().Args) > 0 {
						for _, g := range ce.origins(ci.Common().Args[0], map[ssa.Value]bool{}) {
							n, _ := callName(g)
							c.Ob(n == "math/rand.New", "generator", who, in.Pos(), "%s draws from a generator that may not be the one over the operating system's random numbers", who)
						}
						continue
					}
					c.Ob(false, "generator", who, in.Pos(), "%s uses %s, which does not draw from the operating system's random numbers", who, shortName(f.String()))
				}
			}
		}
	}
	return
}

// source checks the methods of a source.
func (r *randRun) source(t types.Type) {
	c := r.c
	n := namedOf(t)
	for _, name := range []string{"Int63", "Uint64", "Seed"} {
		var sel *types.Selection
		ms := types.NewMethodSet(t)
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Name() == name {
				sel = ms.At(i)
			}
		}
		if sel == nil {
			continue
		}
		fn := c.P.SSA.MethodValue(sel)
		if o, ok := sel.Obj().(*types.Func); ok {
			if f := c.P.SSA.FuncValue(o); f != nil {
				fn = f // not the wrapper for a pointer
			}
		}
		if fn == nil || len(fn.Blocks) == 0 {
			c.Undecided("source:"+name, token.NoPos, "no body for %s of %s", name, n.Obj().Name())
			continue
		}
		if name == "Seed" {
			st := 0
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					switch in.(type) {
					case *ssa.Store, ssa.CallInstruction:
						st++
					}
				}
			}
			c.Ob(st == 0, "not-seedable", n.Obj().Name(), fn.Pos(), "seeding the source does something")
			continue
		}
		e := c.NewEngine(Hooks{Ess: essAll,
			Call:  chain(r.modelFill, r.modelOrder, modelLock),
			Store: r.onStore,
			Return: func(e *Engine, st *State, f *ssa.Function, depth int, vals []*Term, pos token.Pos) {
				if depth != 0 {
					return
				}
				c.Ob(r.uniform(st, vals[0], name == "Int63"), "source-is-random", n.Obj().Name()+"."+name, pos, "%s of the source may return %s, which is not a number read in full from the operating system", name, vals[0])
			}})
		e.Run(fn, nil)
	}
	c.Need("source-is-random", 2)
}

// modelOrder: numbers read from a buffer of random bytes.
func (r *randRun) modelOrder(e *Engine, st *State, cl *Call) ([]CallOut, bool) {
	n := cl.full()
	if !strings.HasPrefix(n, "(encoding/binary.") || cl.Fn == nil {
		return nil, false
	}
	if cl.Fn.Name() != "Uint64" && cl.Fn.Name() != "Uint32" {
		return nil, false
	}
	v := e.Result(cl)
	b := cl.Args[len(cl.Args)-1]
	setTag(st, mkTag("random", v), whole(st, b))
	return []CallOut{{St: st, Val: v}}, true
}

func modelLock(e *Engine, st *State, cl *Call) ([]CallOut, bool) {
	switch cl.full() {
	case "(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock":
		return []CallOut{{St: st, Val: mkTuple(nil)}}, true
	}
	return nil, false
}

// uniform: v is a random number; with 63 bits if it must not be negative.
func (r *randRun) uniform(st *State, v *Term, half bool) bool {
	for v.op == OConv {
		v = v.args[0]
	}
	if !half {
		return st.hasTag(mkTag("random", v))
	}
	if v.op != OBin || len(v.args) != 2 || !st.hasTag(mkTag("random", v.args[0])) {
		return false
	}
	cv := v.args[1]
	if cv.op != OConst || cv.cv == nil {
		return false
	}
	top := constant.Shift(constant.MakeInt64(1), token.SHL, 63)
	low := constant.BinaryOp(top, token.SUB, constant.MakeInt64(1))
	switch v.name {
	case "&":
		return constant.Compare(cv.cv, token.EQL, low)
	case "&^":
		return constant.Compare(cv.cv, token.EQL, top)
	case ">>":
		return constant.Compare(cv.cv, token.EQL, constant.MakeInt64(1)) && !isSigned(v.args[0].typ)
	}
	return false
}

func isSigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned == 0
}

var drawFns = map[string]string{"Int63": "Int63", "Uint32": "Uint32", "Uint64": "Uint64", "Int31": "Int31", "Int": "Int", "Int63n": "Int63n", "Int31n": "Int31n", "Intn": "Intn",
	"Float64": "Float64", "Float32": "Float32", "Perm": "Perm", "Shuffle": "Shuffle", "NormFloat64": "NormFloat64", "ExpFloat64": "ExpFloat64"}

// frontends checks the exported functions of the package.
func (r *randRun) frontends() {
	c := r.c
	sp := c.P.Pkg("crand")
	if sp == nil {
		c.Undecided("package:crand", token.NoPos, "package crand not found")
		return
	}
	// draws are symbolic: method and arguments
	model := func(e *Engine, st *State, cl *Call) ([]CallOut, bool) {
		if cl.Fn == nil {
			return nil, false
		}
		recv := cl.Fn.Signature.Recv()
		if recv == nil {
			return nil, false
		}
		n := cl.full()
		isGen := strings.HasPrefix(n, "(*math/rand.Rand).")
		nm := namedOf(recv.Type())
		isSrc := nm != nil && nm.Obj().Pkg() == sp.Pkg && (cl.Fn.Name() == "Int63" || cl.Fn.Name() == "Uint64")
		if !isGen && !isSrc {
			return nil, false
		}
		v := e.Result(cl)
		if v.op == OSym {
			st.tag(mkTag("draw:"+cl.Fn.Name(), append([]*Term{v}, cl.Args[1:]...)...))
		} else {
			st.tag(mkTag("draw:"+cl.Fn.Name(), cl.Args[1:]...))
		}
		return []CallOut{{St: st, Val: v}}, true
	}
	for _, name := range []string{"Int63", "Uint32", "Uint64", "Int31", "Int", "Int63n", "Int31n", "Intn", "Float64", "Float32", "Perm", "Shuffle", "NormFloat64", "ExpFloat64"} {
		fn := c.P.Func("crand", name)
		if fn == nil {
			continue
		}
		var params []*Term
		e := c.NewEngine(Hooks{Ess: essAll, Call: model,
			Return: func(e *Engine, st *State, f *ssa.Function, depth int, vals []*Term, pos token.Pos) {
				if depth != 0 {
					return
				}
				ok := false
				want := append([]*Term(nil), params...)
				if len(vals) > 0 {
					v := vals[0]
					for v.op == OConv {
						v = v.args[0]
					}
					want = append([]*Term{v}, want...)
				}
				names := []string{name}
				if name == "Intn" {
					names = append(names, "Int63n")
				}
				for _, n := range names {
					ok = ok || st.hasTag(mkTag("draw:"+n, want...))
				}
				c.Ob(ok, "hands-on-the-draw", name, pos, "%s does not return the draw of the generator as it is", name)
			}})
		e.Run(fn, func(st *State, args []*Term) { params = args })
	}
	c.Need("hands-on-the-draw", 5)
	for _, name := range []string{"Read", "ReadRunes"} {
		fn := c.fn("crand", name)
		if fn == nil {
			continue
		}
		var p *Term
		e := c.NewEngine(Hooks{Ess: essAll, Call: chain(r.modelFill, modelLock), Store: r.onStore,
			Return: func(e *Engine, st *State, f *ssa.Function, depth int, vals []*Term, pos token.Pos) {
				if depth != 0 || len(vals) != 2 {
					return
				}
				if isNilT(st, vals[1]) == -1 {
					return
				}
				c.Ob(whole(st, p) || st.truth(mkEqInt(mkLen(p), mkInt(0))) == 1, "fills", name, pos, "%s may report success without having filled the slice with random numbers", name)
				c.Ob(st.truth(mkEqInt(vals[0], mkLen(p))) == 1, "fills", name, pos, "%s may report success with another count than the length of the slice", name)
			}})
		e.Run(fn, func(st *State, args []*Term) { p = args[0] })
	}
	c.Need("fills", 4)
}

// secret checks a function that makes a random secret and returns it in hex.
func (r *randRun) secret(name string, n int64, exact bool) {
	c := r.c
	fn := c.fn("", name)
	if fn == nil {
		return
	}
	e := c.NewEngine(Hooks{Ess: essAll,
		Call: chain(r.modelCrand, r.modelFill, func(e *Engine, st *State, cl *Call) ([]CallOut, bool) {
			// printing the bytes
			var s *Term
			switch {
			case cl.std("encoding/hex.EncodeToString"):
				s = cl.Args[0]
			case cl.std("encoding/hex.Encode", "encoding/hex.AppendEncode"):
				return nil, false
			default:
				if cl.Fn != nil && !c.P.InModule(cl.Fn) && !strings.HasPrefix(cl.full(), "fmt.") {
					for _, a := range cl.Args {
						if isSlice(a.typ) {
							r.touch(st, a)
						}
					}
				}
				return nil, false
			}
			v := e.Result(cl)
			ok := whole(st, s)
			l := mkLen(s)
			if exact {
				ok = ok && st.truth(mkEqInt(l, mkInt(n))) == 1
			} else {
				ok = ok && st.truth(mkLe(mkInt(n), l)) == 1
			}
			setTag(st, mkTag("printed", v), ok)
			return []CallOut{{St: st, Val: v}}, true
		}, modelWipe(c.P)),
		Store: r.onStore,
		Copy:  func(e *Engine, st *State, dst, src *Term, in ssa.Instruction) { r.touch(st, dst) },
		Clear: func(e *Engine, st *State, x *Term, in ssa.Instruction) { r.touch(st, x) },
		Return: func(e *Engine, st *State, f *ssa.Function, depth int, vals []*Term, pos token.Pos) {
			if depth != 0 {
				return
			}
			c.Ob(st.hasTag(mkTag("printed", vals[0])), "random-bytes", name, pos, "%s may return something else than %d bytes filled by the random number generator", name, n)
		}})
	e.Run(fn, nil)
}

// newKey interprets NewKey: add is called where a key is added to the store,
// done when the function returns.
func (r *randRun) newKey(add func(e *Engine, st *State, k, key *Term, field func(n string) *Term, pos token.Pos), done func(e *Engine, st *State, k *Term, vals []*Term, pos token.Pos)) {
	c := r.c
	fn := c.fn("", "Krypto431.NewKey")
	if fn == nil {
		return
	}
	var k *Term
	e := c.NewEngine(Hooks{
		Call: chain(r.modelCrand, modelEqual(c.P), modelFresh(c.P, "VettedKeepers")),
		Assume: func(e *Engine, st *State, cond *Term, v bool, in ssa.Instruction) {
			if cond.op == ONot {
				cond, v = cond.args[0], !v
			}
			if isEqTerm(cond) && !v {
				st.tag(mkTag("ne", cond.args[0], cond.args[1]))
				st.tag(mkTag("ne", cond.args[1], cond.args[0]))
			}
		},
		MoveTag: func(t *Term) bool { return t.name == "letters" },
		Store:   r.onStore,
		Copy: func(e *Engine, st *State, dst, src *Term, in ssa.Instruction) {
			if st.truth(mkEqInt(mkLen(dst), mkLen(src))) == 1 && r.letters(st, src) {
				r.spoil(st, src) // moved: a draw is for one letter
				setTag(st, mkTag("spoiled", dst), false)
				st.tag(mkTag("letters", dst))
				return
			}
			r.spoil(st, dst)
		},
		Append: func(e *Engine, st *State, base *Term, elems []*Term, spread, res *Term, in ssa.Instruction) {
			r.onAppend(e, st, base, elems, spread, res, in)
			if el := elemType(res.typ); typeIs(el, "", "Key") {
				c.Ob(spread == nil && len(elems) == 1 && st.truth(mkEq(base, e.readAt(st, fieldOf(k, "Keys")))) == 1, "adds-one", "NewKey", in.Pos(), "NewKey makes a list of keys that is not the store and one more key")
				for _, x := range elems {
					add(e, st, k, x, func(n string) *Term { return fieldValue(x, n) }, in.Pos())
				}
				st.tag(mkTag("added", res))
			}
		},
		Return: func(e *Engine, st *State, f *ssa.Function, depth int, vals []*Term, pos token.Pos) {
			if depth == 0 && done != nil {
				done(e, st, k, vals, pos)
			}
		},
	})
	e.Run(fn, func(st *State, args []*Term) { k = args[0] })
}

// fieldValue is a field of a struct value by name.
func fieldValue(v *Term, name string) *Term {
	st := structOf(v.typ)
	for i := 0; st != nil && i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return mkFieldVal(v, v.typ, i)
		}
	}
	return nil
}

// ---- C03 ----

func checkC03(c *Ctx) {
	r := &randRun{c: c, ce: newConstEval(c.P)}
	fn := c.fn("", "Krypto431.NewKey")
	if fn == nil {
		return
	}
	n := 0
	r.newKey(func(e *Engine, st *State, k, key *Term, field func(n string) *Term, pos token.Pos) {
		n++
		gs := mkInit(fieldOf(k, "GroupSize"), tInt)
		kl := mkInit(fieldOf(k, "KeyLength"), tInt)
		keys := mkInit(fieldOf(k, "Keys"), pointee(fieldOf(k, "Keys")))
		id, runes := field("Id"), field("Runes")
		c.Ob(id != nil && st.truth(mkEqInt(mkLen(id), gs)) == 1, "id-length", "NewKey", pos, "the id of a new key may not have the group size")
		c.Ob(runes != nil && longEnough(st, mkLen(runes), kl, gs), "key-length", "NewKey", pos, "a new key may be shorter than the key length of the instance (its length is %s)", mkLen(runes))
		for _, f := range []string{"Used", "Compromised"} {
			v := field(f)
			c.Ob(v != nil && st.truth(v) == -1, "unmarked", f, pos, "a new key may be marked %s", strings.ToLower(f))
		}
		var exp *Term
		if x := field("Expires"); x != nil && len(fn.Params) > 1 {
			if x = fieldValue(x, "Time"); x != nil && x == e.Param(fn, fn.Params[1]) {
				exp = x
			}
		}
		c.Ob(exp != nil, "expiry", "NewKey", pos, "a new key may not expire when it was asked to")
		c.Ob(field("instance") == k, "belongs", "NewKey", pos, "a new key does not belong to the instance it was made for")
		unique := st.truth(mkEqInt(mkLen(keys), mkInt(0))) == 1
		for _, t := range tagsNamed(st.must, "ne") {
			a := t.args[0]
			if t.args[1] != id || a.op != OInit || fieldName(a.args[0]) != "Key.Id" {
				continue
			}
			if ix := a.args[0].args[0]; ix.op == OIndex && ix.args[0] == keys && ix.args[1].isWhole() {
				unique = true
			}
		}
		c.Ob(unique, "unique-id", "NewKey", pos, "a new key may be added to the store without its id having been compared with the id of every key there")
	}, func(e *Engine, st *State, k *Term, vals []*Term, pos token.Pos) {
		l := e.readAt(st, fieldOf(k, "Keys"))
		c.Ob(l != nil && st.hasTag(mkTag("added", l)), "added", "NewKey", pos, "NewKey may return without having added the key to the store")
	})
	r.generateKeys()
	checkEqualFns(c)
	for _, ru := range []string{"expiry", "id-length", "key-length", "unmarked", "belongs", "unique-id", "added", "adds-one"} {
		c.Need(ru, 1)
	}
}

// longEnough proves n >= kl, where n may be kl rounded up to a multiple of gs.
func longEnough(st *State, n, kl, gs *Term) bool {
	if n == kl || st.truth(mkLe(kl, n)) == 1 {
		return true
	}
	strip := func(t *Term) *Term {
		for t.op == OConv {
			t = t.args[0]
		}
		return t
	}
	n = strip(n)
	if n.op == OBin && n.name == "*" {
		a, b := strip(n.args[0]), strip(n.args[1])
		if a == gs {
			a, b = b, a
		}
		if b != gs {
			return false
		}
		if a.op == OCall && strings.HasSuffix(a.name, "math.Ceil") {
			q := a.args[0]
			return q.op == OBin && q.name == "/" && isFloat(q.typ) && strip(q.args[0]) == kl && strip(q.args[1]) == gs
		}
		if a.op == OBin && a.name == "/" && a.args[1] == gs {
			// (kl + gs - 1) / gs
			d := lin(linSub(a.args[0], kl)).add(lin(gs), -1)
			return len(d.atoms) == 0 && d.c >= -1
		}
		l := lin(a)
		if len(l.atoms) == 1 && l.c >= 1 {
			// kl/gs + 1
			for q, k := range l.atoms {
				if k == 1 && q.op == OBin && q.name == "/" && q.args[0] == kl && q.args[1] == gs {
					return true
				}
			}
		}
		return false
	}
	return false
}

// generateKeys: every key is asked for with the expiry time and the keepers
// that were given.
func (r *randRun) generateKeys() {
	c := r.c
	fn := c.fn("", "Krypto431.GenerateKeys")
	if fn == nil || len(fn.Params) != 4 {
		return
	}
	expire, keepers := (*Term)(nil), (*Term)(nil)
	var e *Engine
	e = c.NewEngine(Hooks{
		Call: func(e *Engine, st *State, cl *Call) ([]CallOut, bool) {
			switch {
			case cl.is(c.P, "", "Krypto431.NewKey"):
				x := cl.Args[1]
				given := isNilT(st, expire) == 1
				if x.op == OFieldVal && len(x.args) == 1 {
					given = given || st.hasTag(mkTag("parsed", x.args[0]))
				}
				c.Ob(given, "expiry", "GenerateKeys", cl.Pos, "GenerateKeys may make a key that expires at another time than was asked for")
				c.Ob(cl.Args[2] == keepers, "keepers", "GenerateKeys", cl.Pos, "GenerateKeys may make a key for other keepers than were given")
				return []CallOut{{St: st, Val: e.Result(cl)}}, true
			case cl.full() == "github.com/sa6mwa/dtg.Parse":
				arg := cl.Args[0]
				return fallible(e, st, cl, func(st *State, res []*Term) {
					if arg == mkInit(expire, pointee(expire)) || arg == e.readAt(st, expire) {
						st.tag(mkTag("parsed", res[0]))
					}
				}, nil), true
			}
			return nil, false
		}})
	e.Run(fn, func(st *State, args []*Term) { expire, keepers = args[2], args[3] })
	c.Need("keepers", 1)
}
