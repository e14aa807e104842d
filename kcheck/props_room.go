package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C31", Run: checkC31, Explain: "The largest number of letters the coder writes for a character, and for the announcement of a key, is read off its automaton (all states, all characters), together with the fields of its state that count the letters. Abstract interpretation of Encipher with the coder replaced by this contract and a ghost count of the letters of the part shows that each character, each announcement and the padding fit into the key of the part, and that enciphering is refused only because a key is missing or a character has no code.",
		Assume: []string{"the keys of the store have room for an announcement and one character (they are made with 20 letters or more, ids have the group size)", "coder and decoder as in C17"}})
}

func checkC31(c *Ctx) {
	g := newGlobals(c.P)
	k := newCoder(c, g)
	enc := c.fn("", "Message.Encipher")
	dec := c.fn("", "Message.Decipher")
	if enc == nil || dec == nil {
		return
	}
	k.enc, k.dec = k.find(enc), k.find(dec)
	if !c.Ob(k.enc != nil && k.dec != nil, "coder", "found", enc.Pos(), "Encipher and Decipher do not use a coder and a decoder of single characters") {
		return
	}
	k.state = pointeeType(k.enc.Params[0].Type())
	tabs := k.tables()
	if tabs == nil {
		return
	}
	k.product(tabs)
	k.room()
	c.Need("character-fits", 1)
	c.Need("announcement-fits", 1)
	c.Need("padding-fits", 1)
	c.Need("refused", 1)
}

// counters are the fields of the state that grow by one with each letter the
// coder writes.
func (k *coder) counters() map[int]bool {
	res := map[int]bool{}
	for i, f := range k.fields() {
		if isInt(f.Type()) && k.grows[i] > 0 && k.grows[i] == k.steps {
			res[i] = true
		}
	}
	return res
}

func (k *coder) room() {
	c := k.c
	cnt := k.counters()
	c.count("letters for a character at most", k.most)
	c.count("letters for an announcement at most, without the id", k.mostMark)
	c.sample("fields of the coder that count letters: %d", len(cnt))
	ghost := intern(OGlobal, "ghost:letters of the part", types.NewPointer(tInt))
	var size *Term
	ready := mkTag("room")
	letters := func(key *Term, e *Engine, st *State) *Term {
		a := fieldOf(key, "Runes")
		if a == nil {
			return nil
		}
		return mkLen(e.readAt(st, a))
	}
	set := func(e *Engine, st *State, cl *Call, n *Term) {
		st.store(ghost, n, tInt)
		for i := range cnt {
			st.store(mkField(cl.Args[0], k.state, i), n, tInt)
		}
	}
	write := func(e *Engine, st *State, cl *Call, n *Term) {
		st.havoc(cl.Args[0])
		set(e, st, cl, n)
		out := cl.Args[2]
		v := e.newSym(e.curFr, OSym, cl.Site, "text", pointee(out), &SymInfo{Kind: "call", What: "text of a part"})
		st.store(out, v, pointee(out))
		st.facts[mkEqInt(mkLen(v), n)] = true
	}
	fork := func(e *Engine, st *State, cl *Call, legit bool) []CallOut {
		if cl.Res == nil || !isError(resType(cl)) {
			return []CallOut{{St: st, Val: e.Result(cl)}}
		}
		res := e.Result(cl)
		st.assume(mkEq(res, mkNil()), true)
		outs := []CallOut{{St: st, Val: mkNil()}}
		if legit {
			bad := st.clone()
			delete(bad.facts, mkEq(res, mkNil()))
			bad.assume(mkEq(res, mkNil()), false)
			bad.tag(mkTag("cause"))
			outs = append(outs, CallOut{St: bad, Val: res})
		}
		return outs
	}
	r := &encRun{c: c}
	// the key of the part the letters go to has room for n letters
	fits := func(e *Engine, st *State, cl *Call, rule, what string, n *Term) {
		key := k.partKey(e, st, cl.Args[2])
		if !c.Ob(key != nil, rule, "key", cl.Pos, "the text does not belong to a key") {
			return
		}
		l := letters(key, e, st)
		st.assume(mkLe(linAdd(size, mkInt(int64(k.mostMark+k.most))), l), true)
		c.Ob(st.hasTag(ready) && rule != "character-fits" || st.truth(mkLe(n, l)) == 1, rule, "Encipher", cl.Pos, "%s may need more letters (%s) than the key of its part has (%s)", what, n, l)
	}
	r.call = func(e *Engine, st *State, cl *Call) ([]CallOut, bool) {
		n := e.readAt(st, ghost)
		if cl.is(c.P, "", "Krypto431.FindKey") {
			key := e.Result(cl)
			no := st.clone()
			no.tag(mkTag("cause"))
			r.handOut(e, st, key, true)
			return []CallOut{{St: no, Val: mkNil()}, {St: st, Val: key}}, true
		}
		switch k.how(cl.Fn) {
		case "new":
			res := e.Result(cl)
			st.store(ghost, mkInt(0), tInt)
			for i := range cnt {
				st.store(mkField(res, k.state, i), mkInt(0), tInt)
			}
			st.tag(ready)
			return []CallOut{{St: st, Val: res}}, true
		case "reset":
			st.havoc(cl.Args[0])
			set(e, st, cl, mkInt(0))
			st.tag(ready)
			return []CallOut{{St: st, Val: e.Result(cl)}}, true
		case "encode":
			d := e.newSym(e.curFr, OSym, cl.Site, "letters", tInt, &SymInfo{Kind: "call", What: "the letters of a character"})
			m := linAdd(n, d)
			fits(e, st, cl, "character-fits", "a character", linAdd(n, mkInt(int64(k.most))))
			key := k.partKey(e, st, cl.Args[2])
			if key == nil {
				return nil, false
			}
			l := letters(key, e, st)
			setTag(st, ready, false)
			if st.truth(mkLe(linAdd(n, linAdd(size, mkInt(int64(k.most+k.mostMark)))), l)) == 1 {
				st.tag(ready)
			}
			st.facts[mkLe(mkInt(1), d)] = true
			st.facts[mkLe(d, mkInt(int64(k.most)))] = true
			write(e, st, cl, m)
			return fork(e, st, cl, true), true
		case "announce":
			m := linAdd(n, linAdd(size, mkInt(int64(k.mostMark))))
			fits(e, st, cl, "announcement-fits", "the announcement of the next key", m)
			v := e.newSym(e.curFr, OSym, cl.Site, "letters", tInt, &SymInfo{Kind: "call", What: "the letters of a part"})
			write(e, st, cl, v)
			return fork(e, st, cl, false), true
		case "pad":
			cl.Args[1].walk(func(x *Term) {
				if x.op == OBin && x.name == "%" && st.truth(mkLe(mkInt(1), x.args[1])) == 1 {
					st.facts[mkLe(x, linSub(x.args[1], mkInt(1)))] = true
					if nonneg(st, x.args[0], 0) {
						st.facts[mkLe(mkInt(0), x)] = true
					}
				}
			})
			ok := st.truth(mkLe(cl.Args[1], linAdd(size, mkInt(int64(k.mostMark))))) == 1
			m := linAdd(n, cl.Args[1])
			c.Ob(ok, "padding-fits", "amount", cl.Pos, "the padding may have more letters (%s) than there is room for", cl.Args[1])
			fits(e, st, cl, "padding-fits", "the padding", m)
			v := e.newSym(e.curFr, OSym, cl.Site, "letters", tInt, &SymInfo{Kind: "call", What: "the letters of a part"})
			write(e, st, cl, v)
			return fork(e, st, cl, false), true
		}
		return nil, false
	}
	r.hooks = Hooks{
		EssTag:  func(t *Term) bool { return t.name == "cause" },
		EssCell: func(a *Term) bool { return a == ghost },
		// what is read of a part fits, as each write to it does
		Load: func(e *Engine, st *State, addr, val *Term, in ssa.Instruction) {
			if val == nil || addr.op != OField || !isSlice(val.typ) || !isRune(elemType(val.typ)) {
				return
			}
			if key := k.partKey(e, st, addr); key != nil {
				st.assume(mkLe(mkLen(val), letters(key, e, st)), true)
			}
		},
		// the key of a part does not change once it has a text
		Store: func(e *Engine, st *State, addr, val *Term, in ssa.Instruction) {
			if addr.op != OField || !isPtr(val.typ) || !isModType(c.P, pointeeType(val.typ), "Key") {
				return
			}
			s := structOf(addr.args[0].typ)
			for i := 0; s != nil && i < s.NumFields(); i++ {
				if t := s.Field(i).Type(); isSlice(t) && isRune(elemType(t)) {
					v := e.readAt(st, mkField(addr.args[0], pointee(addr.args[0]), i))
					old := e.readAt(st, addr)
					c.Ob(isZeroLen(st, v) || val.isNil() || old == val, "same-key", "Encipher", in.Pos(), "a part that may have a text already (%s) gets another key", v)
				}
			}
		},
	}
	r.done = func(r *encRun, st *State, ok bool, pos tokenPos) {
		if ok {
			return
		}
		c.Ob(st.hasTag(mkTag("cause")), "refused", "Encipher", pos, "enciphering may be refused although a key is available and every character has a code")
	}
	// functions that compute with lengths
	r.inline = func(f *ssa.Function) bool {
		res := f.Signature.Results()
		if res.Len() == 0 || k.how(f) != "" {
			return false
		}
		for i := 0; i < res.Len(); i++ {
			if t := res.At(i).Type(); !isInt(t) && !isBool(t) {
				return false
			}
		}
		n := 0
		for _, b := range f.Blocks {
			n += len(b.Instrs)
		}
		return n < 60
	}
	r.prep = func(st *State) {
		inst := r.e.readAt(st, fieldOf(r.m, "instance"))
		size = r.e.readAt(st, fieldOf(inst, "GroupSize"))
		st.assume(mkLe(mkInt(1), size), true)
		st.heap[ghost] = mkInt(0)
		st.tag(ready)
	}
	r.run()
}
