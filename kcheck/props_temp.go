package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C10: temporary secrets are wiped on every way out ----

func init() {
	register(&Check{ID: "C10", Run: checkC10,
		Explain: "Abstract interpretation, over all paths, of every function that handles a secret for a while: a typed password (every function that reads one, asks for one or derives a key from one, and what is made of a password string there), the encoded text of an enciphering, the copies an attempt at deciphering works with, and the stores that commands and the import of keys open. Each such secret is a debt from where it comes into being; it is settled by wiping it (what wiping does is C09, that deriving a key wipes the password is C11), by closing the store it is part of, or by handing it to the caller or to the record it belongs to. Rule at every return, successful or not: no debt is left. Deferred calls count.",
		Assume:  []string{"the library functions that read a password keep no copy", "strings (options given on the command line, what the password validator is given) can not be wiped in Go and are not part of the property"}})
}

func checkC10(c *Ctx) {
	c.passwordDebts()
	c.textDebts()
	c.attemptDebts()
	c.storeDebts()
	c.Need("password", 8)
	c.Need("text", 4)
	c.Need("attempt", 3)
	c.Need("store", 6)
}

func isByteSlice(t types.Type) bool {
	return t != nil && isSlice(t) && elemType(t) != nil && types.Identical(elemType(t).Underlying(), types.Typ[types.Byte])
}

func isBytesOrPtr(t types.Type) bool {
	return isByteSlice(t) || isPtr(t) && isByteSlice(pointeeType(t))
}

// outermost: the named function a function literal is part of.
func outermost(f *ssa.Function) *ssa.Function {
	for f != nil && f.Parent() != nil {
		f = f.Parent()
	}
	return f
}

func isReadPassword(n string) bool {
	return strings.HasSuffix(n, "/term.ReadPassword") || strings.HasSuffix(n, "/terminal.ReadPassword")
}

func (c *Ctx) passwordDebts() {
	derives := map[*ssa.Function]bool{}
	for _, n := range []string{"DerivePFKFromPassword", "DerivePFKFromPasswordWithValidation"} {
		if f := c.fn("", "Krypto431."+n); f != nil {
			derives[f] = true
		}
	}
	// the functions that reach a prompt, and those of them that return bytes
	reach := map[*ssa.Function]bool{}
	direct := map[*ssa.Function]bool{}
	callers := map[*ssa.Function][]*ssa.Function{}
	c.P.eachCall(func(in ssa.CallInstruction, fn *ssa.Function, name string) {
		o := outermost(fn)
		if isReadPassword(name) {
			reach[o], direct[o] = true, true
		}
		if g := in.Common().StaticCallee(); g != nil {
			callers[g] = append(callers[g], o)
			if derives[g] {
				direct[o] = true
			}
		}
	})
	for again := true; again; {
		again = false
		for g := range reach {
			for _, o := range callers[g] {
				if !reach[o] {
					reach[o], again = true, true
				}
			}
		}
	}
	asks := map[*ssa.Function]bool{}
	for f := range reach {
		res := f.Signature.Results()
		for i := 0; i < res.Len(); i++ {
			asks[f] = asks[f] || isBytesOrPtr(res.At(i).Type())
		}
		if !asks[f] {
			delete(asks, f)
		}
	}
	for g := range asks {
		direct[g] = true
		for _, o := range callers[g] {
			direct[o] = true
		}
	}
	// what wipes or passes on a password may be in a function of its own
	part := func(f *ssa.Function) bool {
		if f.Parent() != nil || f.Synthetic != "" {
			return true
		}
		if !c.P.InModule(f) || f.Pkg != nil && strings.HasSuffix(f.Pkg.Pkg.Path(), "/crand") {
			return false
		}
		for i := 0; i < f.Signature.Params().Len(); i++ {
			if isBytesOrPtr(f.Signature.Params().At(i).Type()) {
				return true
			}
		}
		for i := 0; i < f.Signature.Results().Len(); i++ {
			if isBytesOrPtr(f.Signature.Results().At(i).Type()) {
				return true
			}
		}
		return false
	}
	for _, fn := range c.P.Funcs {
		if !direct[fn] && !derives[fn] || len(fn.Blocks) == 0 {
			continue
		}
		derivesHere := false
		for d := range derives {
			derivesHere = derivesHere || c.P.reaches(fn, d)
		}
		owed := func(v *Term) *Term { return mkTag("owed", v) }
		wipes := modelWipe(c.P)
		settle := func(st *State) {
			for _, t := range tagsNamed(st.may, "owed") {
				if st.hasTag(mkTag("wiped", t.args[0])) {
					setTag(st, t, false)
				}
			}
		}
		name := fn.Name()
		var gave, given *Term // the password a derivation was given, and where it is
		e := c.NewEngine(Hooks{
			EssTag:  func(t *Term) bool { return t.name == "owed" },
			MoveTag: func(t *Term) bool { return t.name == "owed" },
			Opaque:  func(f *ssa.Function) bool { return !part(f) },
			Append: func(e *Engine, st *State, base *Term, elems []*Term, spread, res *Term, in ssa.Instruction) {
				if spread != nil && st.mayTag(owed(spread)) || st.mayTag(owed(base)) {
					setTag(st, owed(res), true)
				}
			},
			Copy: func(e *Engine, st *State, dst, src *Term, in ssa.Instruction) {
				if st.mayTag(owed(src)) {
					setTag(st, owed(dst), true)
				}
			},
			Call: func(e *Engine, st *State, cl *Call) ([]CallOut, bool) {
				owe := func(st *State, v *Term) {
					if v == nil {
						return
					}
					if isPtr(v.typ) {
						pw := e.newSym(e.curFr, OSym, cl.Site, "typed", pointee(v), &SymInfo{Kind: "call", What: "the password typed"})
						st.store(v, pw, pointee(v))
						v = pw
					}
					if v != nil && isByteSlice(v.typ) {
						setTag(st, owed(v), true)
					}
				}
				switch {
				case isReadPassword(cl.full()):
					return fallible(e, st, cl, func(st *State, res []*Term) { owe(st, res[0]) }, nil), true
				case cl.Fn != nil && asks[cl.Fn]:
					res := e.Result(cl)
					// what is returned is memory of its own
					typed := func(st *State, v *Term) *Term {
						if isPtr(v.typ) {
							v = e.newSym(e.curFr, OAlloc, cl.Site, "answer", v.typ, &SymInfo{Kind: "call", What: "what " + cl.Fn.Name() + " returned"})
						}
						owe(st, v)
						return v
					}
					if res.op != OTuple {
						no := st.clone()
						if !isPtr(res.typ) {
							no = nil
						}
						outs := []CallOut{{St: st, Val: typed(st, res)}}
						if no != nil {
							outs = append(outs, CallOut{St: no, Val: mkNil()})
						}
						return outs, true
					}
					outs := fallible(e, st, cl, nil, nil)
					for i, o := range outs {
						if last := o.Val.args[len(o.Val.args)-1]; isNilT(o.St, last) != 1 {
							continue
						}
						vals := append([]*Term{}, o.Val.args...)
						for j, v := range vals {
							if isBytesOrPtr(v.typ) {
								vals[j] = typed(o.St, v)
							}
						}
						outs[i].Val = mkTuple(vals)
					}
					return outs, true
				case cl.Fn != nil && derives[cl.Fn]:
					p := cl.Args[1]
					if isNilT(st, p) != 1 {
						e.wipeCell(st, cl, p)
						settle(st)
					}
					return fallible(e, st, cl, nil, nil), true
				}
				o, ok := wipes(e, st, cl)
				for _, x := range o {
					settle(x.St)
				}
				return o, ok
			},
			Return: func(e *Engine, st *State, f *ssa.Function, depth int, vals []*Term, pos token.Pos) {
				if depth != 0 {
					return
				}
				ok := true
				debts := tagsNamed(st.may, "owed")
				if derivesHere {
					for _, t := range tagsNamed(st.may, "conv") {
						if isByteSlice(t.args[0].typ) && !st.hasTag(mkTag("wiped", t.args[0])) {
							debts = append(debts, t)
						}
					}
				}
				for _, t := range debts {
					v := t.args[0]
					fine := isNilT(st, v) == 1 || isZeroLen(st, v) || v == given && isNilT(st, gave) == 1
					for _, r := range vals {
						if r != nil && succeeds(st, f, vals) != -1 {
							fine = fine || r == v || isPtr(r.typ) && e.readAt(st, r) == v
						}
					}
					ok = ok && fine
				}

				c.Ob(ok, "password", name, pos, "%s may return without having wiped a password (or a copy of one)", name)
			},
		})
		e.Run(fn, func(st *State, args []*Term) {
			if derives[fn] && isPtr(args[1].typ) {
				if v := e.readAt(st, args[1]); v != nil {
					gave, given = args[1], v
					setTag(st, owed(v), true)
				}
			}
		})
	}
}

// textDebts: what Encipher encodes into is wiped.
func (c *Ctx) textDebts() {
	isText := func(a *Term) bool { // a variable of the enciphering that holds letters
		if a == nil || pointee(a) == nil || !isSlice(pointee(a)) || !types.Identical(elemType(pointee(a)), types.Typ[types.Rune]) {
			return false
		}
		r := rootOf(a)
		return r.op == OAlloc || r.op == OMake || r.op == OSym && !isParamSym(r)
	}
	filled := func(a *Term) *Term { return mkTag("filled", a) }
	texts := func(l *Term) *Term { return mkTag("texts", l) }
	textsAt := func(a *Term) *Term { return mkTag("textsAt", a) }
	// holds: val is or has in a field the content of a filled variable
	holds := func(e *Engine, st *State, val *Term) (l []*Term) {
		for _, t := range tagsNamed(st.may, "filled") {
			cur := e.readAt(st, t.args[0])
			if cur != nil && val != nil && val.contains(func(x *Term) bool { return x == cur }) {
				l = append(l, t)
			}
		}
		return l
	}
	var r *encRun
	var settled func(st *State, l *Term) bool
	settled = func(st *State, l *Term) bool {
		if isZeroLen(st, l) {
			return true
		}
		for _, t := range tagsNamed(st.must, "extends") {
			if t.args[1] == l && t.args[0] != l && t.args[0].id > l.id && settled(st, t.args[0]) {
				return true
			}
		}
		for _, t := range tagsNamed(st.must, "wipedAt") {
			a := t.args[0]
			if a.field() != nil {
				a = a.args[0]
			}
			if a.op == OIndex && a.args[0] == l && a.args[1].isWhole() {
				return true
			}
		}
		return false
	}
	r = &encRun{c: c}
	r.call = func(e *Engine, st *State, cl *Call) ([]CallOut, bool) {
		var a *Term
		switch {
		case cl.is(c.P, "", "Wipe", "RandomWipe", "ZeroWipe"):
			a = cl.Args[0]
		case cl.is(c.P, "", "chunk.Wipe", "chunk.RandomWipe", "chunk.ZeroWipe"):
			a = fieldOf(cl.Args[0], "encodedText")
		default:
			return nil, false
		}
		// two variables may share the text
		cur := e.readAt(st, a)
		for _, t := range tagsNamed(st.must, "loaded") {
			if cur != nil && t.args[0] == cur {
				st.tag(mkTag("wipedAt", t.args[1]))
			}
		}
		for _, t := range tagsNamed(st.may, "filled") {
			if t.args[0] == a || cur != nil && e.readAt(st, t.args[0]) == cur {
				setTag(st, t, false)
			}
		}
		return nil, false
	}
	r.hooks.MoveTag = func(t *Term) bool { return t.name == "filled" || t.name == "texts" }
	r.hooks.Opq = func(e *Engine, st *State, cl *Call, res *Term) {
		if cl.Fn == nil || !c.P.InModule(cl.Fn) || cl.is(c.P, "", "RuneCopy", "EqualRunes") {
			return
		}
		for _, a := range cl.Args {
			if a != nil && isPtr(a.typ) && isText(a) {
				setTag(st, filled(a), true)
			}
		}
	}
	r.hooks.Append = func(e *Engine, st *State, base *Term, elems []*Term, spread, res *Term, in ssa.Instruction) {
		in2 := false
		for _, x := range append(append([]*Term{}, elems...), spread) {
			if x == nil {
				continue
			}
			for _, t := range holds(e, st, x) {
				setTag(st, t, false)
				in2 = true
			}
			if st.mayTag(texts(x)) {
				setTag(st, texts(x), false)
				in2 = true
			}
		}
		if st.mayTag(texts(base)) {
			setTag(st, texts(base), false)
			in2 = true
		}
		for _, t := range tagsNamed(st.may, "textsAt") {
			in2 = in2 || e.readAt(st, t.args[0]) == base
		}
		if in2 {
			setTag(st, texts(res), true)
		}
	}
	r.store = func(r *encRun, st *State, addr, val *Term, in ssa.Instruction) {
		e := r.e
		if isVarargs(rootOf(addr)) {
			return
		}
		if isSlice(pointee(addr)) {
			if st.mayTag(texts(val)) {
				setTag(st, texts(val), false)
				setTag(st, textsAt(addr), true)
			} else if t := textsAt(addr); st.mayTag(t) && e.readAt(st, addr) != val {
				setTag(st, t, false)
				if old := e.readAt(st, addr); old == nil || !settled(st, old) {
					st.tag(mkTag("letGo"))
				}
			}
		}
		for _, t := range tagsNamed(st.may, "filled") {
			a := t.args[0]
			if a != addr && !under(a, addr) {
				continue
			}
			old := e.readAt(st, a)
			if val != nil && val.contains(func(x *Term) bool { return x == old }) {
				continue
			}
			setTag(st, t, false)
			if old == nil || st.hasTag(mkTag("wiped", old)) || isZeroLen(st, old) || isNilT(st, old) == 1 {
				continue
			}
			// another variable may still have it
			kept := false
			for b, v := range st.heap {
				if v == old && b != a && b != addr && !under(b, addr) && isText(b) {
					setTag(st, filled(b), true)
					kept = true
				}
			}
			if !kept {
				st.tag(mkTag("letGo"))
			}
		}
	}
	r.done = func(r *encRun, st *State, ok bool, pos tokenPos) {
		var left []string
		if st.mayTag(mkTag("letGo")) {
			left = append(left, "a text that is in no variable any more")
		}
		for _, t := range tagsNamed(st.may, "filled") {
			if cur := r.e.readAt(st, t.args[0]); cur == nil || isNilT(st, cur) != 1 && !isZeroLen(st, cur) && !st.hasTag(mkTag("wipedAt", t.args[0])) {
				left = append(left, what(t.args[0]))
			}
		}
		for _, t := range tagsNamed(st.may, "texts") {
			if !settled(st, t.args[0]) {
				left = append(left, t.args[0].String())
			}
		}
		for _, t := range tagsNamed(st.may, "textsAt") {
			if v := r.e.readAt(st, t.args[0]); v == nil || !settled(st, v) {
				left = append(left, "the texts in "+t.args[0].String())
			}
		}
		way := "on success"
		if !ok {
			way = "on failure"
		}
		c.Ob(len(left) == 0, "text", "Encipher "+way, pos, "the enciphering may return without having wiped the encoded text: %s", strings.Join(left, "; "))
	}
	r.run()
}

// attemptDebts: the copies TryDecipherPlainText works with.
func (c *Ctx) attemptDebts() {
	fn := c.fn("", "Message.TryDecipherPlainText")
	if fn == nil {
		return
	}
	var m *Term
	wipes := modelWipe(c.P)
	owed := func(v *Term) *Term { return mkTag("owed", v) }
	settle := func(st *State) {
		for _, t := range tagsNamed(st.may, "owed") {
			if st.hasTag(mkTag("wiped", t.args[0])) {
				setTag(st, t, false)
			}
		}
	}
	sensitive := func(e *Engine, st *State, v *Term) bool {
		if v == nil {
			return false
		}
		for _, n := range []string{"PlainText", "CipherText"} {
			if a := fieldOf(m, n); v == mkInit(a, pointee(a)) || v == e.readAt(st, a) {
				return true
			}
		}
		src, _ := copyOf(st, v)
		for _, n := range []string{"PlainText", "CipherText"} {
			if a := fieldOf(m, n); src == mkInit(a, pointee(a)) {
				return true
			}
		}
		return st.mayTag(owed(v))
	}
	e := c.NewEngine(Hooks{
		Ess:     essAll,
		MoveTag: func(t *Term) bool { return t.name == "owed" },
		Store: func(e *Engine, st *State, addr, val *Term, in ssa.Instruction) {
			if n := fieldName(addr); n == "Message.PlainText" || n == "Message.CipherText" {
				setTag(st, owed(val), false) // handed over to the record
			}
		},
		Copy: func(e *Engine, st *State, dst, src *Term, in ssa.Instruction) {
			if sensitive(e, st, src) {
				setTag(st, owed(dst), true)
			}
			copyHook(e, st, dst, src, in)
		},
		Append: func(e *Engine, st *State, base *Term, elems []*Term, spread, res *Term, in ssa.Instruction) {
			if spread != nil && sensitive(e, st, spread) || sensitive(e, st, base) {
				setTag(st, owed(base), false)
				setTag(st, owed(res), true)
			}
			for _, x := range elems {
				if x != nil && x.contains(func(y *Term) bool { return y.op == OIndex && sensitive(e, st, y.args[0]) }) {
					setTag(st, owed(res), true)
				}
			}
			appendCopyHook(e, st, base, elems, spread, res, in)
		},
		Call: func(e *Engine, st *State, cl *Call) ([]CallOut, bool) {
			switch {
			case cl.is(c.P, "", "Krypto431.NewUniqueMessageId"):
				return []CallOut{{St: st, Val: e.Result(cl)}}, true
			case cl.is(c.P, "", "RuneCopy", "ByteCopy"):
				src := e.readPtr(st, cl, cl.Args[0])
				was := sensitive(e, st, src)
				o, ok := modelClone(e, st, cl)
				for _, x := range o {
					if was {
						setTag(x.St, owed(x.Val), true)
					}
				}
				return o, ok
			case cl.is(c.P, "", "Message.Decipher"):
				res := e.Result(cl)
				pa := fieldOf(m, "PlainText")
				st.tag(mkTag("wiped", e.readAt(st, pa)))
				settle(st)
				st.store(pa, mkSym(OSym, "deciphered", pointee(pa), &SymInfo{Kind: "call", What: "the deciphered text"}), pointee(pa))
				bad := st.clone()
				bad.assume(mkEq(res, mkNil()), false)
				st.assume(mkEq(res, mkNil()), true)
				return []CallOut{{St: bad, Val: res}, {St: st, Val: mkNil()}}, true
			}
			if o, ok := modelClone(e, st, cl); ok {
				return o, ok
			}
			o, ok := wipes(e, st, cl)
			for _, x := range o {
				settle(x.St)
			}
			return o, ok
		},
		Return: func(e *Engine, st *State, f *ssa.Function, depth int, vals []*Term, pos token.Pos) {
			if depth != 0 {
				return
			}
			ok := true
			for _, t := range tagsNamed(st.may, "owed") {
				v := t.args[0]
				fine := isNilT(st, v) == 1 || isZeroLen(st, v)
				ok = ok && fine
			}
			c.Ob(ok, "attempt", "TryDecipherPlainText", pos, "the attempt to decipher may return without having wiped its copy of the text")
		},
	})
	e.Run(fn, func(st *State, args []*Term) { m = args[0] })
}

// storeDebts: a store opened in a function is wiped there.
func (c *Ctx) storeDebts() {
	isStore := func(t types.Type) bool { return isModType(c.P, t, "Krypto431") }
	// the functions that make a store and return it
	makes := func(g *ssa.Function) bool {
		if g == nil || !c.P.InModule(g) {
			return false
		}
		res := g.Signature.Results()
		for i := 0; i < res.Len(); i++ {
			if isStore(pointeeOr(res.At(i).Type())) && g.Signature.Recv() == nil || isStore(res.At(i).Type()) {
				return true
			}
		}
		return false
	}
	roots := map[*ssa.Function]bool{}
	c.P.eachCall(func(in ssa.CallInstruction, fn *ssa.Function, name string) {
		if makes(in.Common().StaticCallee()) {
			roots[outermost(fn)] = true
		}
	})
	for _, fn := range c.P.Funcs {
		if !roots[fn] || len(fn.Blocks) == 0 {
			continue
		}
		name := fn.Name()
		open := func(a *Term) *Term { return mkTag("open", a) }
		e := c.NewEngine(Hooks{
			EssTag:  func(t *Term) bool { return t.name == "open" || t.name == "made" },
			MoveTag: func(t *Term) bool { return t.name == "open" },
			Opaque: func(f *ssa.Function) bool {
				if f.Parent() != nil || f.Synthetic != "" {
					return false
				}
				if f.Pkg == nil || f.Pkg != fn.Pkg || makes(f) || f.Signature.Recv() != nil && isStore(pointeeOr(f.Signature.Recv().Type())) {
					return true
				}
				for i := 0; i < f.Signature.Params().Len(); i++ {
					if isStore(pointeeOr(f.Signature.Params().At(i).Type())) {
						return !c.P.reaches(f, c.fn("", "Krypto431.Wipe"))
					}
				}
				return true
			},
			Store: func(e *Engine, st *State, addr, val *Term, in ssa.Instruction) {
				if val == nil || isPtr(pointee(addr)) || !isStore(pointee(addr)) {
					return
				}
				if st.mayTag(open(addr)) {
					st.tag(mkTag("dropped"))
				}
				if st.mayTag(mkTag("made", val)) {
					setTag(st, mkTag("made", val), false)
					setTag(st, open(addr), true)
					return
				}
			},
			Call: func(e *Engine, st *State, cl *Call) ([]CallOut, bool) {
				switch {
				case cl.is(c.P, "", "Krypto431.Wipe", "Krypto431.Close"):
					setTag(st, open(cl.Args[0]), false)
					if cl.Res != nil {
						return []CallOut{{St: st, Val: e.Result(cl)}}, true
					}
					return []CallOut{{St: st, Val: mkTuple(nil)}}, true
				case makes(cl.Fn):
					owe := func(st *State, parts []*Term) {
						for _, v := range parts {
							switch {
							case v == nil || !isStore(pointeeOr(v.typ)):
							case isPtr(v.typ):
								st.assume(mkEq(v, mkNil()), false)
								setTag(st, open(v), true)
							default:
								setTag(st, mkTag("made", v), true)
							}
						}
					}
					if res := cl.Fn.Signature.Results(); isError(res.At(res.Len() - 1).Type()) {
						return fallible(e, st, cl, owe, nil), true
					}
					res := e.Result(cl)
					owe(st, []*Term{res})
					return []CallOut{{St: st, Val: res}}, true
				case cl.survey():
					return fallible(e, st, cl, nil, nil), true
				}
				return nil, false
			},
			Return: func(e *Engine, st *State, f *ssa.Function, depth int, vals []*Term, pos token.Pos) {
				if depth != 0 {
					return
				}
				ok := !st.mayTag(mkTag("dropped"))
				for _, t := range tagsNamed(st.may, "open") {
					a := t.args[0]
					given := false
					for _, v := range vals {
						given = given || v != nil && (v == a || v == e.readAt(st, a))
					}
					ok = ok && given
				}
				for _, t := range tagsNamed(st.may, "made") {
					given := false
					for _, v := range vals {
						given = given || v == t.args[0]
					}
					ok = ok && given
				}
				c.Ob(ok, "store", name, pos, "%s may return without having wiped a store it opened", name)
			},
		})
		e.Run(fn, nil)
	}
}

func pointeeOr(t types.Type) types.Type {
	if isPtr(t) {
		return pointeeType(t)
	}
	return t
}
