package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C05", Run: checkC05,
		Explain: "Path- and loop-summarising abstract interpretation of the automatic key selection and of the acceptance of an explicitly named key (callees inlined). Rule: on every path that hands out a key, the path condition implies that the key's compromised mark is false; on every path that accepts a message whose key is already named, the path condition implies that the key it was compared equal with is not compromised. The enciphering function is interpreted with the selection functions replaced by that contract: every key whose letters reach the trigraph function comes from them.",
		Assume:  []string{"key ids in a store are unique and in upper case (that is how they are generated), so looking an id up finds the key that was checked", "group size is at least 1 (a configuration with less is rejected)"}})
	register(&Check{ID: "C06", Run: checkC06,
		Explain: "Abstract interpretation of the automatic key selection with a summary of the rune-sequence comparisons (their bodies are verified against that summary). Rule: on every path that hands out a key, either the recipient list is empty and the key has no keepers, or the list is not empty and every recipient - a universally quantified tag established over the whole list - was found equal to one of the keepers of that very key; the key id has exactly the configured length; the enciphering function passes the message's own recipients to the selection at every call.",
		Assume:  []string{"recipients and keepers are compared as they are stored (both are upper-cased when they are entered)"}})
}

var essAll = func(*Term) bool { return true }

// key facts at a program point
func keyField(e *Engine, st *State, key *Term, name string) *Term {
	a := fieldOf(key, name)
	if a == nil {
		return nil
	}
	return e.readAt(st, a)
}

func knownFalse(e *Engine, st *State, key *Term, name string) bool {
	t := keyField(e, st, key, name)
	return t != nil && st.truth(t) == -1
}

func knownTrue(e *Engine, st *State, key *Term, name string) bool {
	t := keyField(e, st, key, name)
	return t != nil && st.truth(t) == 1
}

// findKeyPaths runs FindKey and shows every return to f (recv is the instance,
// rcpts the recipients slice).
func findKeyPaths(c *Ctx, f func(e *Engine, st *State, recv, rcpts, key *Term, pos tokenPos)) {
	fn := c.fn("", "Krypto431.FindKey")
	if fn == nil {
		return
	}
	var recv, rcpts *Term
	e := c.NewEngine(Hooks{
		Call:   modelEqual(c.P),
		Assume: matchTags,
		Ess:    essAll,
		Return: func(e *Engine, st *State, fn *ssa.Function, depth int, vals []*Term, pos tokenPos) {
			if depth == 0 && len(vals) == 1 {
				f(e, st, recv, rcpts, vals[0], pos)
			}
		},
	})
	e.Run(fn, func(st *State, args []*Term) {
		if len(args) == 2 {
			recv, rcpts = args[0], args[1]
			st.assume(mkLe(mkInt(1), e.readAt(st, fieldOf(recv, "GroupSize"))), true)
		}
	})
}

func init() {
	register(&Check{ID: "C04", Run: checkC04,
		Explain: "Abstract interpretation of the automatic selection, of the acceptance of an explicitly named key and of the enciphering (selection replaced by the contract verified before), followed by a whole-module scan of the places that take a used mark off. Rules: a key is only handed out or accepted when the path condition implies that its used mark is false; the mark is set before another key is selected and before the first letter is enciphered with the key; it is set on every successful return; no code other than the failure path of the enciphering and the import/generation of keys clears a mark.",
		Assume:  []string{"key ids are unique in a store", "two abstract objects made by the same statement in earlier rounds of a loop are treated as one"}})
}

// usedStores reports every write of something else than true to the used mark
// of a key that is not local to the function.
func usedStores(c *Ctx) {
	enc := c.fn("", "Message.Encipher")
	mark := c.fn("", "Krypto431.MarkKeyUsed")
	if enc == nil || mark == nil {
		return
	}
	// functions that only run as a part of enciphering
	callers := map[*ssa.Function][]*ssa.Function{}
	taken := map[*ssa.Function]bool{}
	for _, fn := range c.P.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var callee ssa.Value
				if ci, ok := in.(ssa.CallInstruction); ok {
					callee = ci.Common().Value
					if g := ci.Common().StaticCallee(); g != nil {
						callers[g] = append(callers[g], fn)
					}
				}
				var ops [16]*ssa.Value
				for _, o := range in.Operands(ops[:0]) {
					if o == nil || *o == nil || *o == callee {
						continue
					}
					if f, ok := (*o).(*ssa.Function); ok {
						taken[f] = true
					}
				}
			}
		}
	}
	inside := map[*ssa.Function]bool{enc: true}
	for ch := true; ch; {
		ch = false
		for _, fn := range c.P.Funcs {
			if inside[fn] || fn == mark {
				continue
			}
			if fn.Parent() != nil {
				if inside[fn.Parent()] {
					inside[fn], ch = true, true
				}
				continue
			}
			o := fn.Object()
			if o == nil || o.Exported() || taken[fn] || len(callers[fn]) == 0 {
				continue
			}
			all := true
			for _, g := range callers[fn] {
				all = all && inside[g]
			}
			if all {
				inside[fn], ch = true, true
			}
		}
	}
	// functions that only run as a part of MarkKeyUsed
	marks := map[*ssa.Function]bool{mark: true}
	for ch := true; ch; {
		ch = false
		for _, fn := range c.P.Funcs {
			o := fn.Object()
			if marks[fn] || o == nil || o.Exported() || taken[fn] || len(callers[fn]) == 0 {
				continue
			}
			all := true
			for _, g := range callers[fn] {
				all = all && (marks[g] || inside[g])
			}
			if all {
				marks[fn], ch = true, true
			}
		}
	}
	isTrue := func(v ssa.Value) bool {
		k, ok := v.(*ssa.Const)
		return ok && k.Value != nil && k.Value.Kind() == constant.Bool && constant.BoolVal(k.Value)
	}
	local := func(v ssa.Value) bool {
		a, ok := v.(*ssa.Alloc)
		if !ok {
			return false
		}
		if typeIs(a.Type(), "", "Key") {
			return true
		}
		return false
	}
	for _, fn := range c.P.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if fa, ok := in.(*ssa.FieldAddr); ok && typeIs(fa.X.Type(), "", "Key") && structOf(fa.X.Type()).Field(fa.Field).Name() == "Used" {
					for _, ref := range *fa.Referrers() {
						switch x := ref.(type) {
						case *ssa.UnOp, *ssa.DebugRef:
						case *ssa.Store:
							ok := x.Addr == fa && (isTrue(x.Val) || local(fa.X) || inside[fn] || marks[fn])
							c.Ob(ok, "unmarked-only-on-failure", shortName(fn.String()), x.Pos(), "%s may take the used mark off a key of the store", shortName(fn.String()))
						default:
							c.Ob(inside[fn], "unmarked-only-on-failure", shortName(fn.String())+":address", in.Pos(), "%s hands out the address of the used mark of a key", shortName(fn.String()))
						}
					}
				}
				if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().StaticCallee() == mark {
					args := ci.Common().Args
					c.Ob(inside[fn] || isTrue(args[len(args)-1]), "unmarked-only-on-failure", shortName(fn.String())+":MarkKeyUsed", in.Pos(), "%s may take the used mark off a key of the store", shortName(fn.String()))
				}
			}
		}
	}
	c.Need("unmarked-only-on-failure", 4)
}

func checkC04(c *Ctx) {
	findKeyPaths(c, func(e *Engine, st *State, recv, rcpts, key *Term, pos tokenPos) {
		if isNilT(st, key) != 1 {
			c.Ob(knownFalse(e, st, key, "Used"), "selects-unused", "FindKey", pos, "a key is handed out on a path that does not exclude that it is used")
		}
	})
	c.Need("selects-unused", 2)
	enrichPaths(c, func(e *Engine, st *State, m *Term, preset bool, key *Term, pos tokenPos) {
		if key == nil {
			c.Fail("explicit-unused", "EnrichWithKey", pos, "a message is accepted for enciphering although no unused key was established")
			return
		}
		a := fieldOf(key, "Used")
		if preset {
			c.Ob(st.truth(mkInit(a, pointee(a))) == -1, "explicit-unused", "EnrichWithKey", pos, "a message with an explicitly named key is accepted on a path that does not exclude that the key is used")
		} else {
			c.Ob(st.truth(mkInit(a, pointee(a))) == -1 && knownTrue(e, st, key, "Used"), "chosen-marked", "EnrichWithKey", pos, "the chosen key is not marked used when the message is given its id")
		}
	})
	c.Need("explicit-unused", 1)
	c.Need("chosen-marked", 1)
	r := &encRun{c: c}
	r.trigraph = func(r *encRun, st *State, key, idx, in, out *Term, cl *Call) {
		if c.Ob(key != nil, "marked-before-use", "key", cl.Pos, "the letter %s is not a letter of a key", cl.Args[1]) {
			c.Ob(knownTrue(r.e, st, key, "Used"), "marked-before-use", "Encipher", cl.Pos, "text is enciphered with a key that is not marked used at this point")
		}
	}
	r.find = func(r *encRun, st *State, cl *Call) {
		for _, k := range r.keys(st, false) {
			c.Ob(knownTrue(r.e, st, k, "Used"), "marked-before-next", "Encipher", cl.Pos, "another key is looked for before the previous one is marked used, the same key may be found again")
		}
	}
	r.done = func(r *encRun, st *State, ok bool, pos tokenPos) {
		if !ok {
			return
		}
		ks := r.keys(st, false)
		c.Ob(len(ks) > 0, "spent-on-success", "none", pos, "enciphering succeeds without a key")
		for _, k := range ks {
			c.Ob(knownTrue(r.e, st, k, "Used"), "spent-on-success", "Encipher", pos, "enciphering succeeds but a key it used may not be marked used")
		}
	}
	r.run()
	c.Need("marked-before-use", 1)
	c.Need("marked-before-next", 1)
	c.Need("spent-on-success", 1)
	usedStores(c)
}

func checkC05(c *Ctx) {
	n := 0
	findKeyPaths(c, func(e *Engine, st *State, recv, rcpts, key *Term, pos tokenPos) {
		if isNilT(st, key) == 1 {
			return
		}
		n++
		c.Ob(knownFalse(e, st, key, "Compromised"), "never-compromised", "FindKey", pos, "a key is handed out on a path that does not exclude that it is marked compromised")
	})
	c.Need("never-compromised", 2)
	enrichPaths(c, func(e *Engine, st *State, m *Term, preset bool, key *Term, pos tokenPos) {
		if preset {
			c.Ob(key != nil && knownFalse(e, st, key, "Compromised"), "explicit-key", "EnrichWithKey", pos, "a message with an explicitly named key is accepted on a path that does not exclude that the key is compromised")
		} else {
			c.Ob(key != nil && knownFalse(e, st, key, "Compromised"), "chosen-key", "EnrichWithKey", pos, "a message is given a key that may be marked compromised")
		}
	})
	c.Need("explicit-key", 1)
	c.Need("chosen-key", 1)
	encipherKeys(c, func(e *Engine, st *State, key *Term, pos token.Pos) {
		c.Ob(knownFalse(e, st, key, "Compromised"), "enciphers-with", "Encipher", pos, "text is enciphered with the letters of a key that was not handed out by the key selection")
	})
	c.Need("enciphers-with", 1)
}

func checkC06(c *Ctx) {
	checkEqualFns(c)
	findKeyPaths(c, func(e *Engine, st *State, recv, rcpts, key *Term, pos tokenPos) {
		if isNilT(st, key) == 1 {
			return
		}
		keepers := keyField(e, st, key, "Keepers")
		id := keyField(e, st, key, "Id")
		gs := e.readAt(st, fieldOf(recv, "GroupSize"))
		c.Ob(id != nil && st.truth(mkEqInt(mkLen(id), gs)) == 1, "key-id-length", "FindKey", pos, "a key is handed out whose id may not have the configured group size")
		empty := st.truth(mkEqInt(mkLen(rcpts), mkInt(0)))
		anon := keepers != nil && st.truth(mkEqInt(mkLen(keepers), mkInt(0))) == 1
		all := false
		for t := range st.must {
			if t.op == OTag && t.name == "matched" && t.args[1] == keepers {
				if a := t.args[0]; a.op == OInit && a.args[0].op == OIndex && a.args[0].args[0] == rcpts && a.args[0].args[1].isWhole() {
					all = true
				}
			}
		}
		switch {
		case empty == 1:
			c.Ob(anon, "anonymous-key", "FindKey", pos, "a message without recipients is given a key that may have keepers")
		case empty == -1:
			c.Ob(all, "recipients-are-keepers", "FindKey", pos, "a key is handed out although not every recipient was found among its keepers")
		default:
			c.Ob(anon && all, "recipients-are-keepers", "FindKey", pos, "a key is handed out on a path that does not tell whether there are recipients")
		}
	})
	c.Need("anonymous-key", 1)
	c.Need("recipients-are-keepers", 1)
	c.Need("key-id-length", 2)
	// every selection made while enciphering is made for the recipients of the message
	for _, n := range []string{"Message.Encipher", "Message.EnrichWithKey"} {
		fn := c.fn("", n)
		if fn == nil {
			continue
		}
		var m *Term
		e := c.NewEngine(Hooks{
			Call: func(e *Engine, st *State, cl *Call) ([]CallOut, bool) {
				if cl.is(c.P, "", "Krypto431.FindKey") {
					want := e.readAt(st, fieldOf(m, "Recipients"))
					inst := e.readAt(st, fieldOf(m, "instance"))
					c.Ob(len(cl.Args) == 2 && cl.Args[1] == want && cl.Args[0] == inst, "asks-for-recipients", shortName(cl.In.String()), cl.Pos,
						"the key is selected for %s and not for the recipients of the message", cl.Args[1])
				}
				return nil, false
			},
		})
		e.h.Opaque = func(f *ssa.Function) bool {
			return f != fn && !(c.P.reaches(f, c.P.Func("", "Krypto431.FindKey")) && f != c.P.Func("", "Krypto431.FindKey"))
		}
		e.Run(fn, func(st *State, args []*Term) { m = args[0] })
	}
	c.Need("asks-for-recipients", 2)
}

// idKey is the key whose Id field held the value id, or nil.
func idKey(id *Term) *Term {
	if id.op == OInit && fieldName(id.args[0]) == "Key.Id" {
		return id.args[0].args[0]
	}
	return nil
}

// enrichPaths runs EnrichWithKey and shows every successful return to f: key is
// the key the message names then, preset tells whether the caller had named it.
func enrichPaths(c *Ctx, f func(e *Engine, st *State, m *Term, preset bool, key *Term, pos tokenPos)) {
	fn := c.fn("", "Message.EnrichWithKey")
	if fn == nil {
		return
	}
	var m *Term
	e := c.NewEngine(Hooks{
		Call:   chain(modelClone, modelEqual(c.P), modelFresh(c.P, "Krypto431.NewUniqueMessageId")),
		Assume: matchTags,
		Ess:    essAll,
		Copy:   copyHook,
		Append: appendCopyHook,
		Return: func(e *Engine, st *State, fn *ssa.Function, depth int, vals []*Term, pos tokenPos) {
			if depth != 0 || succeeds(st, fn, vals) == -1 {
				return
			}
			ka := fieldOf(m, "KeyId")
			id := e.readAt(st, ka)
			preset := id == mkInit(ka, pointee(ka))
			var key *Term
			for t := range st.must {
				if t.op != OTag {
					continue
				}
				if !preset && t.name == "copied" && t.args[0] == id || preset && t.name == "eq" && t.args[0] == id {
					if k := idKey(t.args[1]); k != nil {
						key = k
					}
				}
			}
			if k := idKey(id); k != nil {
				key = k
				preset = false
			}
			f(e, st, m, preset, key, pos)
		},
	})
	e.Run(fn, func(st *State, args []*Term) {
		m = args[0]
		inst := e.readAt(st, fieldOf(m, "instance"))
		if inst != nil {
			st.assume(mkLe(mkInt(1), e.readAt(st, fieldOf(inst, "GroupSize"))), true)
		}
	})
}

// modelFresh: the named functions return a fresh value and change nothing that
// matters here.
func modelFresh(p *Program, names ...string) callModel {
	return func(e *Engine, st *State, c *Call) ([]CallOut, bool) {
		if c.is(p, "", names...) {
			return []CallOut{{St: st, Val: e.Result(c)}}, true
		}
		return nil, false
	}
}

func encipherKeys(c *Ctx, f func(e *Engine, st *State, key *Term, pos token.Pos)) {
	r := &encRun{c: c, trigraph: func(r *encRun, st *State, key, idx, in, out *Term, cl *Call) {
		if c.Ob(key != nil, "enciphers-with", "key", cl.Pos, "the letter %s is not a letter of a key", cl.Args[1]) {
			f(r.e, st, key, cl.Pos)
		}
	}}
	r.run()
}

// reaches tells whether f may (transitively, by static calls and closures)
// call g.
func (p *Program) reaches(f, g *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var visit func(x *ssa.Function) bool
	visit = func(x *ssa.Function) bool {
		if x == nil || seen[x] {
			return false
		}
		if x == g {
			return true
		}
		seen[x] = true
		for _, b := range x.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if visit(c.Common().StaticCallee()) {
						return true
					}
				}
				var ops [12]*ssa.Value
				for _, o := range in.Operands(ops[:0]) {
					if o == nil || *o == nil {
						continue
					}
					switch v := (*o).(type) {
					case *ssa.Function:
						if p.InModule(v) && visit(v) {
							return true
						}
					case *ssa.MakeClosure:
						if fn, ok := v.Fn.(*ssa.Function); ok && visit(fn) {
							return true
						}
					}
				}
			}
		}
		return false
	}
	return visit(f)
}

// encRun is one abstract run of Encipher with the key selection replaced by its
// contract.
type encRun struct {
	c    *Ctx
	e    *Engine
	m    *Term // the message
	inst *Term
	// callbacks
	trigraph func(r *encRun, st *State, key, idx, in, out *Term, cl *Call)
	find     func(r *encRun, st *State, cl *Call)
	done     func(r *encRun, st *State, ok bool, pos tokenPos)
	store    func(r *encRun, st *State, addr, val *Term, in ssa.Instruction)
	call     callModel
	hooks    Hooks
	prep     func(st *State)
	inline   func(f *ssa.Function) bool // also interpreted
}

// used by the checks to find the keys a run handed out
func (r *encRun) keys(st *State, must bool) (l []*Term) {
	m := st.may
	if must {
		m = st.must
	}
	for t := range m {
		if t.op == OTag && t.name == "selected" {
			l = append(l, t.args[0])
		}
	}
	sortTerms(l)
	return l
}

// keyOfRune splits &K.Runes[i].
func keyOfRune(a *Term) (key, idx *Term) {
	if a.op != OIndex {
		return nil, nil
	}
	b := a.args[0]
	if b.op == OInit && fieldName(b.args[0]) == "Key.Runes" {
		return b.args[0].args[0], a.args[1]
	}
	return nil, nil
}

func (r *encRun) run() {
	c := r.c
	fn := c.fn("", "Message.Encipher")
	if fn == nil {
		return
	}
	keyN, _ := c.P.Struct("", "Key")
	if keyN == nil {
		c.Undecided("type:Key", token.NoPos, "the Key type was not found")
		return
	}
	h := r.hooks
	wipes := modelWipe(c.P)
	h.Ess = func(f *Term) bool { return true }
	h.Call = chain(func(e *Engine, st *State, cl *Call) ([]CallOut, bool) {
		if r.call != nil {
			if o, ok := r.call(e, st, cl); ok {
				return o, true
			}
		}
		if o, ok := wipes(e, st, cl); ok {
			return o, true
		}
		switch {
		case cl.is(c.P, "", "Krypto431.NewUniqueMessageId"):
			return []CallOut{{St: st, Val: e.Result(cl)}}, true
		case cl.is(c.P, "", "Message.EnrichWithKey"):
			res := e.Result(cl)
			bad := st.clone()
			bad.assume(mkEq(res, mkNil()), false)
			bad.tag(mkTag("cause"))
			outs := []CallOut{{St: bad, Val: res}}
			ok := st
			ok.assume(mkEq(res, mkNil()), true)
			// the message names a key now
			ka := fieldOf(r.m, "KeyId")
			id := mkSym(OSym, "keyid", pointee(ka), &SymInfo{Kind: "call", What: "the id of the key that was chosen"})
			ok.store(ka, id, pointee(ka))
			ok.tag(mkTag("enriched", id))
			mk := intern(OSym, "the key named by the message", types.NewPointer(keyN))
			if mk.obj == nil {
				mk.obj = &SymInfo{Kind: "call", What: mk.name}
			}
			setTag(ok, mkTag("pending", mk), true)
			outs = append(outs, CallOut{St: ok, Val: mkNil()})
			return outs, true
		case cl.is(c.P, "", "Krypto431.GetKey"):
			tup := e.Result(cl)
			key := tup.args[0]
			var outs []CallOut
			enriched := st.hasTag(mkTag("enriched", cl.Args[1]))
			if enriched {
				// the key EnrichWithKey settled on exists
				k := intern(OSym, "the key named by the message", key.typ)
				if k.obj == nil {
					k.obj = &SymInfo{Kind: "call", What: k.name}
				}
				r.handOut(e, st, k, false)
				return []CallOut{{St: st, Val: mkTuple([]*Term{k, mkNil()})}}, true
			}
			bad := st.clone()
			bad.assume(mkEq(tup.args[1], mkNil()), false)
			outs = append(outs, CallOut{St: bad, Val: mkTuple([]*Term{mkNil(), tup.args[1]})})
			st.assume(mkEq(key, mkNil()), false)
			st.assume(mkEq(tup.args[1], mkNil()), true)
			outs = append(outs, CallOut{St: st, Val: mkTuple([]*Term{key, mkNil()})})
			return outs, true
		case cl.is(c.P, "", "Krypto431.FindKey"):
			if r.find != nil {
				r.find(r, st, cl)
			}
			key := e.Result(cl)
			no := st.clone()
			r.handOut(e, st, key, true)
			return []CallOut{{St: no, Val: mkNil()}, {St: st, Val: key}}, true
		case cl.is(c.P, "", "Krypto431.MarkKeyUsed"):
			if len(cl.Args) == 3 && (st.hasTag(mkTag("enriched", cl.Args[1])) || idKey(cl.Args[1]) != nil) {
				k := idKey(cl.Args[1])
				if k == nil {
					k = intern(OSym, "the key named by the message", types.NewPointer(keyN))
				}
				if k.obj == nil {
					k.obj = &SymInfo{Kind: "call", What: k.name}
				}
				a := fieldOf(k, "Used")
				tagReleased(st, a, cl.Args[2], false)
				tracker{}.store(e, st, a, cl.Args[2])
				if r.store != nil {
					r.store(r, st, a, cl.Args[2], cl.Site)
				}
				st.store(a, cl.Args[2], pointee(a))
				return []CallOut{{St: st, Val: mkNil()}}, true
			}
			return nil, false
		case cl.is(c.P, "diana", "TrigraphRune"):
			key, idx := keyOfRune(cl.Args[1])
			in := cl.Args[2]
			if key == nil {
				key, idx = keyOfRune(cl.Args[2])
				in = cl.Args[1]
			}
			if r.trigraph != nil {
				r.trigraph(r, st, key, idx, in, cl.Args[0], cl)
			}
			res := e.Result(cl)
			bad := st.clone()
			bad.assume(mkEq(res, mkNil()), false)
			bad.tag(mkTag("cause"))
			st.assume(mkEq(res, mkNil()), true)
			st.havoc(cl.Args[0])
			return []CallOut{{St: bad, Val: res}, {St: st, Val: mkNil()}}, true
		}
		return nil, false
	})
	inner := h.Store
	h.Store = func(e *Engine, st *State, addr, val *Term, in ssa.Instruction) {
		tagReleased(st, addr, val, false)
		tracker{}.store(r.e, st, addr, val)
		if r.store != nil {
			r.store(r, st, addr, val, in)
		}
		if inner != nil {
			inner(e, st, addr, val, in)
		}
	}
	innerAppend, innerMove := h.Append, h.MoveTag
	h.Append = func(e *Engine, st *State, base *Term, elems []*Term, spread, res *Term, in ssa.Instruction) {
		tracker{}.append(e, st, base, elems, spread, res)
		if innerAppend != nil {
			innerAppend(e, st, base, elems, spread, res, in)
		}
	}
	h.Literal = tracker{}.literal
	h.MoveTag = func(t *Term) bool { return t.name == "listed" || innerMove != nil && innerMove(t) }
	innerLoad := h.Load
	h.Load = func(e *Engine, st *State, addr, val *Term, in ssa.Instruction) {
		tagLoaded(st, addr, val)
		if innerLoad != nil {
			innerLoad(e, st, addr, val, in)
		}
	}
	h.Return = func(e *Engine, st *State, f *ssa.Function, depth int, vals []*Term, pos tokenPos) {
		if depth != 0 || r.done == nil {
			return
		}
		switch succeeds(st, f, vals) {
		case 1:
			r.done(r, st, true, pos)
		case -1:
			r.done(r, st, false, pos)
		default:
			c.Fail("undecided", "Encipher", pos, "can not tell whether this return of the enciphering is a success")
		}
	}
	r.e = c.NewEngine(h)
	r.e.h.Opaque = r.e.AutoOpaque(func(k string) bool {
		return strings.Contains(k, ".Key#") || strings.Contains(k, ".chunk#") || strings.Contains(k, ".Message#") || strings.Contains(k, ".Krypto431#")
	}, func(f *ssa.Function) bool {
		return c.P.isFn(f, "", "Krypto431.FindKey") || c.P.isFn(f, "", "Krypto431.GetKey") || c.P.isFn(f, "", "Krypto431.MarkKeyUsed") || c.P.isFn(f, "", "Message.EnrichWithKey") || c.P.isFn(f, "diana", "TrigraphRune") || c.P.isFn(f, "", "Wipe")
	}, func(t types.Type) bool { return typeIs(t, "", "Key") || typeIs(t, "", "chunk") })
	if opq := r.e.h.Opaque; r.inline != nil {
		r.e.h.Opaque = func(f *ssa.Function) bool { return !r.inline(f) && opq(f) }
	}
	r.e.Run(fn, func(st *State, args []*Term) {
		r.m = args[0]
		r.inst = r.e.readAt(st, fieldOf(r.m, "instance"))
		st.assume(mkLe(mkInt(1), r.e.readAt(st, fieldOf(r.inst, "GroupSize"))), true)
		if r.prep != nil {
			r.prep(st)
		}
	})
}

// tagLoaded records where a key pointer was read from.
func tagLoaded(st *State, addr, val *Term) {
	if innerIndex(addr) == nil || val == nil {
		return
	}
	switch {
	case isSlice(val.typ) && types.Identical(elemType(val.typ), types.Typ[types.Int32]), typeIs(val.typ, "", "Key") && isPtr(val.typ):
		st.tag(mkTag("loaded", val, addr))
	case val.op == OStruct && val.typ != nil:
		t, ok := val.typ.Underlying().(*types.Struct)
		for i := 0; ok && i < t.NumFields() && i < len(val.args); i++ {
			if ft := t.Field(i).Type(); isPtr(ft) && typeIs(ft, "", "Key") || isSlice(ft) {
				st.tag(mkTag("loaded", val.args[i], mkField(addr, val.typ, i)))
			}
		}
	}
}

// tagReleased records that the used mark was taken off the key a list element
// points to; setting a mark ends what was known.
func tagReleased(st *State, addr, val *Term, done bool) {
	if fieldName(addr) != "Key.Used" {
		return
	}
	if v, ok := val.boolVal(); !ok || v != done {
		for t := range st.must {
			if t.op == OTag && t.name == "released" {
				delete(st.must, t)
			}
		}
		return
	}
	for t := range st.must {
		if t.op == OTag && t.name == "loaded" && t.args[0] == addr.args[0] {
			st.tag(mkTag("released", t.args[1]))
		}
	}
}

// handOut records what the selection guarantees about a key.
func (r *encRun) handOut(e *Engine, st *State, key *Term, unused bool) {
	st.assume(mkEq(key, mkNil()), false)
	if unused {
		a := fieldOf(key, "Used")
		st.know(a, mkBool(false))
	}
	a := fieldOf(key, "Compromised")
	st.know(a, mkBool(false))
	st.tag(mkTag("selected", key))
}

func init() {
	register(&Check{ID: "C07", Run: checkC07, Explain: "Abstract interpretation of the enciphering with a ghost ownership analysis: every reserved key is followed from the store of its used mark into the variable, chunk or list it is kept in (tags pending/held/listed, generalised over loops). Rules: at every failing return each of these places has had the mark taken off its key - for lists, of every element, established inductively over the releasing loop -, no reserved key was dropped from all of them, the key id and the cipher text of the message are empty; the mark is taken off no key that this enciphering did not reserve; a refused explicit key keeps its mark.",
		Assume: []string{"two abstract objects made by the same statement in earlier rounds of a loop are treated as one"}})
	register(&Check{ID: "C19", Run: checkC19, Explain: "Abstract interpretation of enciphering and deciphering. Rules: the letter of the key used for letter i of a part of the message is letter i of the key of the same part (both read from the same list element); a ghost counter reset at every key look-up and advanced at every letter equals - as a loop invariant found by the analysis - the index of the key letter the deciphering uses, and the key it uses is the one looked up last.",
		Assume: []string{"two abstract objects made by the same statement in earlier rounds of a loop are treated as one"}})
	register(&Check{ID: "C20", Run: checkC20, Explain: "Abstract interpretation of the deciphering and of the attempt to decipher a plain text. Rules: on a failing return no used mark has been written; on a successful one every key that was looked up - followed into variables and lists, which may not drop one - has its mark set; key id and cipher text of the message are untouched by the deciphering; when an attempt fails, or is a dry run, plain text and cipher text have the values they had (or an unwiped copy) and the key id is empty again.",
		Assume: []string{"the Decipher contract used for the attempt is the one verified here"}})
}

func checkC07(c *Ctx) {
	r := &encRun{c: c}
	r.store = func(r *encRun, st *State, addr, val *Term, in ssa.Instruction) {
		if fieldName(addr) != "Key.Used" || addr.args[0].op == OAlloc {
			return
		}
		if v, ok := val.boolVal(); ok && v {
			return
		}
		c.Ob(st.hasTag(mkTag("selected", addr.args[0])), "releases-only-own", "Encipher", in.Pos(), "the used mark of a key is taken off although this message did not reserve it (%s)", addr.args[0])
	}
	r.done = func(r *encRun, st *State, ok bool, pos tokenPos) {
		if ok {
			return
		}
		ks := r.keys(st, false)
		left := tracker{}.left(r.e, st)
		c.Ob(len(left) == 0, "releases-on-failure", "Encipher", pos, "enciphering fails but may leave marked used: %s", strings.Join(left, "; "))
		if len(ks) == 0 {
			return
		}
		for _, f := range []string{"KeyId", "CipherText"} {
			v := r.e.readAt(st, fieldOf(r.m, f))
			c.Ob(v != nil && (isNilT(st, v) == 1 || st.truth(mkEqInt(mkLen(v), mkInt(0))) == 1), "clears-on-failure", f, pos, "enciphering fails but %s may be left in the message", f)
		}
	}
	r.run()
	c.Need("releases-on-failure", 4)
	c.Need("clears-on-failure", 4)
	c.Need("releases-only-own", 2)
	// failing before a key was reserved changes no mark
	fn := c.fn("", "Message.EnrichWithKey")
	if fn == nil {
		return
	}
	e := c.NewEngine(Hooks{
		Call: chain(modelClone, modelEqual(c.P), modelFresh(c.P, "Krypto431.NewUniqueMessageId")),
		Ess:  essAll,
		Store: func(e *Engine, st *State, addr, val *Term, in ssa.Instruction) {
			if fieldName(addr) == "Key.Used" {
				st.tag(mkTag("marks"))
			}
		},
		Return: func(e *Engine, st *State, f *ssa.Function, depth int, vals []*Term, pos tokenPos) {
			if depth == 0 && succeeds(st, f, vals) != 1 {
				c.Ob(!st.mayTag(mkTag("marks")), "no-mark-on-refusal", "EnrichWithKey", pos, "no key is settled on but the mark of a key may have been changed")
			}
		},
	})
	e.Run(fn, nil)
	c.Need("no-mark-on-refusal", 3)
}

func checkC19(c *Ctx) {
	r := &encRun{c: c}
	r.trigraph = func(r *encRun, st *State, key, idx, in, out *Term, cl *Call) {
		if !c.Ob(key != nil, "letter-by-letter", "key", cl.Pos, "the letter %s is not a letter of a key", cl.Args[1]) {
			return
		}
		ok := in.op == OIndex && in.args[1] == idx
		c.Ob(ok, "letter-by-letter", "Encipher", cl.Pos, "letter %s of the text is enciphered with letter %s of the key", in, idx)
		if ok {
			ok = false
			var ka, ta []*Term
			for _, t := range tagsNamed(st.must, "loaded") {
				if t.args[1].op != OField {
					continue
				}
				if t.args[0] == key {
					ka = append(ka, t.args[1].args[0])
				}
				if t.args[0] == in.args[0] {
					ta = append(ta, t.args[1].args[0])
				}
			}
			for _, a := range ka {
				ok = ok || containsTerm(ta, a)
			}
			c.Ob(ok, "own-key", "Encipher", cl.Pos, "the text %s is enciphered with the key %s, which is not the key of that part of the message", in.args[0], key)
		}
	}
	r.run()
	c.Need("letter-by-letter", 1)
	c.Need("own-key", 1)
	decipherRun(c, true, nil)
	c.Need("successive-letters", 2)
}

// decipherRun interprets Decipher with key lookup by contract.
func decipherRun(c *Ctx, successive bool, done func(e *Engine, st *State, m *Term, ok bool, pos tokenPos)) {
	fn := c.fn("", "Message.Decipher")
	if fn == nil {
		return
	}
	var m *Term
	ghost := intern(OGlobal, "ghost:next key letter", types.NewPointer(tInt))
	ghostKey := intern(OGlobal, "ghost:current key", nil)
	tr := tracker{done: true}
	wipes := modelWipe(c.P)
	h := Hooks{
		Ess:  essAll,
		Load: func(e *Engine, st *State, addr, val *Term, in ssa.Instruction) { tagLoaded(st, addr, val) },
		Append: func(e *Engine, st *State, base *Term, elems []*Term, spread, res *Term, in ssa.Instruction) {
			tr.append(e, st, base, elems, spread, res)
		},
		Literal: tr.literal,
		MoveTag: func(t *Term) bool { return t.name == "listed" },
		Call: func(e *Engine, st *State, cl *Call) ([]CallOut, bool) {
			if o, ok := wipes(e, st, cl); ok {
				return o, true
			}
			switch {
			case cl.is(c.P, "", "Krypto431.NewUniqueMessageId"):
				return []CallOut{{St: st, Val: e.Result(cl)}}, true
			case cl.is(c.P, "", "Krypto431.GetKey"):
				tup := e.Result(cl)
				bad := st.clone()
				bad.assume(mkEq(tup.args[1], mkNil()), false)
				st.assume(mkEq(tup.args[0], mkNil()), false)
				st.assume(mkEq(tup.args[1], mkNil()), true)
				setTag(st, mkTag("pending", tup.args[0]), true)
				st.tag(mkTag("selected"))
				st.heap[ghost] = mkInt(0)
				st.heap[ghostKey] = tup.args[0]
				return []CallOut{{St: bad, Val: mkTuple([]*Term{mkNil(), tup.args[1]})}, {St: st, Val: mkTuple([]*Term{tup.args[0], mkNil()})}}, true
			case cl.is(c.P, "diana", "TrigraphRune"):
				key, idx := keyOfRune(cl.Args[1])
				if key == nil {
					key, idx = keyOfRune(cl.Args[2])
				}
				if successive && c.Ob(key != nil, "successive-letters", "key", cl.Pos, "the letter %s is not a letter of a key", cl.Args[1]) {
					c.Ob(st.heap[ghostKey] == key, "successive-letters", "current", cl.Pos, "a letter is deciphered with the key %s, which is not the one looked up last (%v)", key, st.heap[ghostKey])
					g := e.readAt(st, ghost)
					c.Ob(g != nil && st.truth(mkEqInt(idx, g)) == 1, "successive-letters", "next", cl.Pos, "a letter is deciphered with letter %s of the key, which is not the one after the letter used last (%v)", idx, g)
					st.store(ghost, linAdd(idx, mkInt(1)), tInt)
				}
				res := e.Result(cl)
				bad := st.clone()
				bad.assume(mkEq(res, mkNil()), false)
				st.assume(mkEq(res, mkNil()), true)
				st.havoc(cl.Args[0])
				return []CallOut{{St: bad, Val: res}, {St: st, Val: mkNil()}}, true
			}
			return nil, false
		},
		Store: func(e *Engine, st *State, addr, val *Term, in ssa.Instruction) {
			tagReleased(st, addr, val, true)
			tr.store(e, st, addr, val)
			if fieldName(addr) == "Key.Used" {
				st.tag(mkTag("marks"))
			}
		},
		Return: func(e *Engine, st *State, f *ssa.Function, depth int, vals []*Term, pos tokenPos) {
			if depth == 0 && done != nil {
				done(e, st, m, succeeds(st, f, vals) == 1, pos)
			}
		},
	}
	e := c.NewEngine(h)
	e.h.Opaque = e.AutoOpaque(func(k string) bool {
		return strings.Contains(k, ".Key#") || strings.Contains(k, ".Message#") || strings.Contains(k, ".Krypto431#")
	}, func(f *ssa.Function) bool {
		return c.P.isFn(f, "", "Krypto431.GetKey") || c.P.isFn(f, "diana", "TrigraphRune") || c.P.isFn(f, "", "Wipe")
	}, func(t types.Type) bool { return typeIs(t, "", "Key") })
	e.Run(fn, func(st *State, args []*Term) {
		m = args[0]
		st.heap[ghost] = mkInt(0)
	})
}

func checkC20(c *Ctx) {
	decipherRun(c, false, func(e *Engine, st *State, m *Term, ok bool, pos tokenPos) {
		if !ok {
			c.Ob(!st.mayTag(mkTag("marks")), "unmarked-on-failure", "Decipher", pos, "deciphering fails but the used mark of a key may have been changed")
			return
		}
		c.Ob(st.hasTag(mkTag("selected")), "marked-on-success", "none", pos, "deciphering succeeds without a key")
		left := tracker{done: true}.left(e, st)
		c.Ob(len(left) == 0, "marked-on-success", "Decipher", pos, "deciphering succeeds but may leave unmarked: %s", strings.Join(left, "; "))
		for _, f := range []string{"KeyId", "CipherText"} {
			a := fieldOf(m, f)
			c.Ob(e.readAt(st, a) == mkInit(a, pointee(a)), "keeps-cipher-text", f, pos, "deciphering changes the %s of the message", f)
		}
	})
	c.Need("unmarked-on-failure", 4)
	c.Need("marked-on-success", 1)
	tryDecipher(c)
}

func tryDecipher(c *Ctx) {
	fn := c.fn("", "Message.TryDecipherPlainText")
	if fn == nil {
		return
	}
	var m *Term
	wipes := modelWipe(c.P)
	h := Hooks{
		Ess:    essAll,
		Copy:   copyHook,
		Append: appendCopyHook,
		Call: chain(modelClone, func(e *Engine, st *State, cl *Call) ([]CallOut, bool) {
			switch {
			case cl.is(c.P, "", "Krypto431.NewUniqueMessageId"):
				return []CallOut{{St: st, Val: e.Result(cl)}}, true
			case cl.is(c.P, "", "Message.Decipher"):
				res := e.Result(cl)
				pa := fieldOf(m, "PlainText")
				st.tag(mkTag("wiped", e.readAt(st, pa)))
				st.store(pa, mkSym(OSym, "deciphered", pointee(pa), &SymInfo{Kind: "call", What: "the deciphered text"}), pointee(pa))
				st.tag(mkTag("tried"))
				bad := st.clone()
				bad.assume(mkEq(res, mkNil()), false)
				st.assume(mkEq(res, mkNil()), true)
				return []CallOut{{St: bad, Val: res}, {St: st, Val: mkNil()}}, true
			}
			return wipes(e, st, cl)
		}),
		Return: func(e *Engine, st *State, f *ssa.Function, depth int, vals []*Term, pos tokenPos) {
			if depth != 0 || succeeds(st, f, vals) == 1 && st.hasTag(mkTag("tried")) {
				return
			}
			what := "the attempt to decipher fails"
			if succeeds(st, f, vals) == 1 {
				what = "nothing is deciphered (dry run)"
			}
			for _, n := range []string{"PlainText", "CipherText"} {
				a := fieldOf(m, n)
				v := e.readAt(st, a)
				init := mkInit(a, pointee(a))
				ok := v == init && !st.mayTag(mkTag("wiped", init))
				if !ok && v != nil {
					src, k := copyOf(st, v)
					ok = src == init && k > 0 && !st.mayTag(mkTag("wiped", v))
				}
				c.Ob(ok, "restores", n, pos, "%s but the %s of the message may not be what it was", what, n)
			}
			a := fieldOf(m, "KeyId")
			v := e.readAt(st, a)
			c.Ob(v == mkInit(a, pointee(a)) || v != nil && (isNilT(st, v) == 1 || st.truth(mkEqInt(mkLen(v), mkInt(0))) == 1), "restores", "KeyId", pos, "%s but the message may keep the key id that was tried", what)
		},
	}
	e := c.NewEngine(h)
	e.Run(fn, func(st *State, args []*Term) { m = args[0] })
	c.Need("restores", 9)
}
