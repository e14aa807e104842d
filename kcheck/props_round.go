package main

import (
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C40", Run: checkC40, Explain: "Abstract interpretation of Encipher and Decipher with the coder, the decoder and the table of the cipher replaced by their contracts (C17, C01). Enciphering: a ghost counter shows that every character of the plain text is given to the coder, in order, once; every part of the text goes to the list of parts, once; the key announced at the end of a part is the key of the next one, whose coder starts afresh; padding comes last; every letter of every part is enciphered and appended to the emptied cipher text, and the first part has the key the message names; the cipher text at success has exactly the letters enciphered, of all parts. Deciphering: every letter of the cipher text is deciphered in order and given to the decoder before the next; the letters of an announced id, and only they, are collected, exactly as many as an id has, and name the next key, after which the decoder starts afresh; nothing else is written to the plain text.",
		Assume: []string{"the coder and the decoder agree (C17) and the trigraph table is reciprocal (C01), letters of a key are paired as C19 shows", "the ids of keys have the group size (C03, C29)"}})
}

func checkC40(c *Ctx) {
	g := newGlobals(c.P)
	k := newCoder(c, g)
	enc, dec := c.fn("", "Message.Encipher"), c.fn("", "Message.Decipher")
	if enc == nil || dec == nil {
		return
	}
	k.enc, k.dec = k.find(enc), k.find(dec)
	if !c.Ob(k.enc != nil && k.dec != nil, "coder", "found", enc.Pos(), "Encipher and Decipher do not use a coder and a decoder of single characters") {
		return
	}
	k.state = pointeeType(k.enc.Params[0].Type())
	tabs := k.tables()
	if tabs == nil {
		return
	}
	k.product(tabs)
	k.encipher()
	k.decipher()
	// the letters are substituted back, with the same letters of the keys
	checkC01(c)
	checkC19(c)
	for ru, n := range map[string]int{"every-character": 2, "every-part": 1, "announced-key": 2, "starts-afresh": 2, "padding-last": 1, "every-letter": 2, "deciphers-all": 2, "collects-id": 2, "plain-text": 1} {
		c.Need(ru, n)
	}
}

// isState: fn is a method of the state of the coder; how tells what it does.
func (k *coder) how(fn *ssa.Function) string {
	if fn == nil {
		return ""
	}
	sig := fn.Signature
	if sig.Recv() == nil {
		if sig.Results().Len() == 1 && sig.Params().Len() == 0 && types.Identical(pointeeType(sig.Results().At(0).Type()), k.state) {
			return "new"
		}
		return ""
	}
	if !types.Identical(pointeeType(sig.Recv().Type()), k.state) {
		return ""
	}
	switch {
	case fn == k.enc:
		return "encode"
	case fn == k.dec:
		return "decode"
	case sig.Params().Len() == 0 && sig.Results().Len() == 0:
		return "reset"
	case sig.Params().Len() == 2 && isRunesPtr(sig.Params().At(1).Type()):
		if isModType(k.c.P, pointeeType(sig.Params().At(0).Type()), "Key") {
			return "announce"
		}
		if isInt(sig.Params().At(0).Type()) {
			return "pad"
		}
	}
	return ""
}

var (
	ghostChar = intern(OGlobal, "ghost:next character", types.NewPointer(tInt))
)

// partKey is the key of the part of the message whose text is at addr.
func (k *coder) partKey(e *Engine, st *State, addr *Term) *Term {
	if addr == nil || addr.op != OField {
		return nil
	}
	base := addr.args[0]
	s := structOf(base.typ)
	for i := 0; s != nil && i < s.NumFields(); i++ {
		if f := s.Field(i); isPtr(f.Type()) && isModType(k.c.P, pointeeType(f.Type()), "Key") {
			return e.readAt(st, mkField(base, pointee(base), i))
		}
	}
	return nil
}

// runeAt: the address of the rune a call is given (a pointer, or a value that
// was just read).
func runeAt(a *Term) *Term {
	if isPtr(a.typ) {
		return a
	}
	return addrOf(a)
}

func (k *coder) encipher() {
	c := k.c
	var text *Term // the plain text
	keyT := types.NewPointer(c.named("Key"))
	ghostPart := intern(OGlobal, "ghost:key of the part", types.NewPointer(keyT))
	owed := func(v *Term) *Term { return mkTag("owed-text", v) }
	sofar := func(v *Term) *Term { return mkTag("sofar", v) }
	write := func(e *Engine, st *State, cl *Call, out *Term) {
		old := e.readAt(st, out)
		typ := pointee(out)
		v := e.newSym(e.curFr, OSym, cl.Site, "text", typ, &SymInfo{Kind: "call", What: "text of a part"})
		if old != nil {
			delete(st.may, owed(old))
		}
		for _, t := range tagsNamed(st.must, "sent") {
			if t.contains(func(x *Term) bool { return x == out }) {
				setTag(st, t, false)
			}
		}
		st.store(out, v, typ)
		st.may[owed(v)] = true
	}
	fork := func(e *Engine, st *State, cl *Call) []CallOut {
		if cl.Res == nil || !isError(resType(cl)) {
			return []CallOut{{St: st, Val: e.Result(cl)}}
		}
		res := e.Result(cl)
		bad := st.clone()
		bad.assume(mkEq(res, mkNil()), false)
		bad.tag(mkTag("failed"))
		st.assume(mkEq(res, mkNil()), true)
		return []CallOut{{St: bad, Val: res}, {St: st, Val: mkNil()}}
	}
	r := &encRun{c: c}
	r.call = func(e *Engine, st *State, cl *Call) ([]CallOut, bool) {
		if cl.is(c.P, "", "Wipe", "ZeroWipe", "RandomWipe") && fieldName(cl.Args[0]) == "Message.CipherText" && cl.Args[0].args[0] == r.m {
			st.tag(mkTag("emptied"))
		}
		if cl.is(c.P, "", "Krypto431.GetKey") && st.hasTag(mkTag("enriched", cl.Args[1])) {
			st.tag(mkTag("named"))
		}
		state := func() *Term { return cl.Args[0] }
		switch k.how(cl.Fn) {
		case "encode":
			a := runeAt(cl.Args[1])
			g := e.readAt(st, ghostChar)
			ok := a != nil && a.op == OIndex && a.args[0] == text && st.truth(mkEqInt(a.args[1], g)) == 1
			c.Ob(ok, "every-character", "next", cl.Pos, "what is written next is %s, and not the character of the plain text after the one before (%s)", cl.Args[1], g)
			setTag(st, mkTag("complete"), false)
			if ok {
				st.store(ghostChar, linAdd(a.args[1], mkInt(1)), tInt)
			}
			c.Ob(!st.mayTag(mkTag("announced")), "starts-afresh", "Encipher", cl.Pos, "a character may be written after a change of key without starting afresh")
			c.Ob(!st.mayTag(mkTag("padded")), "padding-last", "Encipher", cl.Pos, "a character may be written after the padding")
			pk := k.partKey(e, st, cl.Args[2])
			c.Ob(pk != nil && pk == st.heap[ghostPart], "announced-key", "Encipher", cl.Pos, "the text goes to a part with the key %s, the key named or announced last is %s", pk, st.heap[ghostPart])
			st.tag(mkTag("written"))
			st.havoc(state())
			write(e, st, cl, cl.Args[2])
			return fork(e, st, cl), true
		case "announce":
			pk := k.partKey(e, st, cl.Args[2])
			c.Ob(pk != nil && pk == st.heap[ghostPart] && !st.mayTag(mkTag("announced")), "announced-key", "announcement", cl.Pos, "a change of key is announced in the part of the key %s, the current one is %s", pk, st.heap[ghostPart])
			st.store(ghostPart, cl.Args[1], keyT)
			st.tag(mkTag("announced"))
			st.havoc(state())
			write(e, st, cl, cl.Args[2])
			return fork(e, st, cl), true
		case "reset", "new":
			c.Ob(st.hasTag(mkTag("announced")) || !st.mayTag(mkTag("written")), "starts-afresh", "reset", cl.Pos, "the coder starts afresh where no change of key was announced")
			setTag(st, mkTag("announced"), false)
			setTag(st, mkTag("written"), false)
			if len(cl.Args) > 0 {
				st.havoc(state())
			}
			return []CallOut{{St: st, Val: e.Result(cl)}}, true
		case "pad":
			pk := k.partKey(e, st, cl.Args[2])
			c.Ob(pk != nil && pk == st.heap[ghostPart], "announced-key", "padding", cl.Pos, "the padding goes to the part of the key %s, the current one is %s", pk, st.heap[ghostPart])
			st.tag(mkTag("padded"))
			st.havoc(state())
			write(e, st, cl, cl.Args[2])
			return fork(e, st, cl), true
		}
		return nil, false
	}
	r.trigraph = func(r *encRun, st *State, key, idx, in, out *Term, cl *Call) {
		c.Ob(st.hasTag(mkTag("emptied")), "every-letter", "empty", cl.Pos, "the cipher text may not be empty when the first letter is enciphered")
		c.Ob(!st.mayTag(mkTag("unsent")), "every-letter", "sent", cl.Pos, "an enciphered letter may not be appended to the cipher text before the next one is enciphered")
		for _, t := range tagsNamed(st.may, "unsent") {
			setTag(st, t, false)
		}
		st.tag(mkTag("unsent"))
		st.tag(mkTag("lettered"))
		st.tag(mkTag("letter", in, out))
	}
	r.hooks = Hooks{
		MoveTag: func(t *Term) bool { return t.name == "owed-text" || t.name == "sofar" },
		EssTag: func(t *Term) bool {
			return t.name == "owed-text" || t.name == "sofar" || t.name == "lettered" || t.name == "second" || t.name == "shortened" || t.name == "unsent" || t.name == "announced" || t.name == "padded" || t.name == "failed"
		},
		EssCell: func(a *Term) bool { return a == ghostPart },
		Append: func(e *Engine, st *State, base *Term, elems []*Term, spread, res *Term, in ssa.Instruction) {
			if res == nil {
				return
			}
			// a part goes to the list
			for _, x := range elems {
				for _, v := range x.args {
					if st.mayTag(owed(v)) {
						delete(st.may, owed(v))
						st.may[mkTag("in-list", v)] = true
					}
				}
			}
			if !isRune(elemType(res.typ)) || spread != nil || len(elems) != 1 {
				return
			}
			for _, t := range tagsNamed(st.must, "letter") {
				if v := st.heap[t.args[1]]; v == elems[0] || addrOf(elems[0]) == t.args[1] || v == nil && containsAddr(elems[0], t.args[1]) {
					setTag(st, mkTag("unsent"), false)
					// res holds all letters enciphered so far if base held those before
					first := isZeroLen(st, base) && !st.mayTag(mkTag("second"))
					ok := first || st.mayTag(sofar(base))
					for _, o := range tagsNamed(st.may, "sofar") {
						setTag(st, o, false)
					}
					st.tag(mkTag("second"))
					if ok {
						st.may[sofar(res)] = true
					}
					for _, l := range tagsNamed(st.must, "loaded") {
						if in := t.args[0]; in.op == OIndex && l.args[0] == in.args[0] && innerIndex(l.args[1]) != nil && !innerIndex(l.args[1]).args[1].isWhole() {
							st.tag(mkTag("sent", mkIndexRaw(l.args[1], in.args[1], in.typ)))
						}
					}
				}
			}
		},
		Assume: func(e *Engine, st *State, cond *Term, v bool, in ssa.Instruction) {
			if st.hasTag(mkTag("complete")) {
				return
			}
			t := st.clone()
			if g := t.heap[ghostChar]; g != nil && t.assume(cond, v) && t.truth(mkEqInt(g, mkLen(text))) == 1 {
				st.tag(mkTag("complete"))
			}
		},
		Store: func(e *Engine, st *State, addr, val *Term, in ssa.Instruction) {
			if fieldName(addr) == "Message.CipherText" && isZeroLen(st, val) {
				st.tag(mkTag("emptied"))
			}
			if fieldName(addr) == "Message.CipherText" && addr.args[0] == r.m && st.mayTag(mkTag("lettered")) && !st.mayTag(sofar(val)) {
				st.tag(mkTag("shortened"))
			}
		},
	}
	r.done = func(r *encRun, st *State, ok bool, pos tokenPos) {
		if !ok {
			return
		}
		c.Ob(st.hasTag(mkTag("complete")), "every-character", "all", pos, "enciphering may succeed without having written the whole plain text")
		c.Ob(!st.mayTag(mkTag("failed")), "every-character", "failed", pos, "enciphering may succeed although a character could not be written")
		for _, t := range tagsNamed(st.may, "owed-text") {
			c.Ob(false, "every-part", "Encipher", pos, "a part of the text (%s) may not be enciphered", t.args[0])
		}
		c.Ob(true, "every-part", "Encipher", pos, "")
		c.Ob(st.hasTag(mkTag("named")), "announced-key", "first", pos, "the first part may not have the key the message names")
		c.Ob(!st.mayTag(mkTag("unsent")), "every-letter", "last", pos, "the last letter may not be appended to the cipher text")
		all := false
		for _, t := range tagsNamed(st.must, "sent") {
			if a := t.args[0]; a.op == OIndex && a.args[1].isWhole() {
				if ix := innerIndex(a.args[0]); ix != nil && ix.args[1].isWhole() {
					all = true
				}
			}
		}
		ct := r.e.readAt(st, fieldOf(r.m, "CipherText"))
		c.Ob(ct != nil && (st.mayTag(sofar(ct)) || !st.mayTag(mkTag("lettered"))), "every-letter", "kept", pos, "enciphering may succeed with a cipher text (%s) that has not exactly the letters enciphered", ct)
		c.Ob(!st.mayTag(mkTag("shortened")), "every-letter", "shortened", pos, "enciphering may succeed although letters were taken off the cipher text")
		c.Ob(!st.mayTag(mkTag("lost")), "every-part", "list", pos, "a part of the text may be dropped from the list of parts")
		c.Ob(all, "every-letter", "all", pos, "enciphering may succeed without having enciphered every letter of every part")
	}
	r.prep = func(st *State) {
		text = r.e.readAt(st, fieldOf(r.m, "PlainText"))
		st.heap[ghostChar] = mkInt(0)
		st.heap[ghostPart] = intern(OSym, "the key named by the message", keyT)
	}
	r.run()
}

func containsAddr(v, a *Term) bool { return v.contains(func(t *Term) bool { return t == a }) }

// signal finds the field of the state that tells the letters of an id from
// those of the text: its value within an id, which it has nowhere else.
func (k *coder) signal() (field int, within *Term) {
	for i := range k.fields() {
		var in *Term
		ok := len(k.ins) > 0
		for _, s := range k.ins {
			v := s[i]
			if v == nil || v.op != OConst || in != nil && v != in {
				ok = false
				break
			}
			in = v
		}
		for _, s := range k.texts {
			if v := s[i]; v == nil || v.op != OConst || v == in {
				ok = false
				break
			}
		}
		if ok {
			return i, in
		}
	}
	return -1, nil
}

func (k *coder) decipher() {
	c := k.c
	fn := c.fn("", "Message.Decipher")
	si, within := k.signal()
	if !c.Ob(si >= 0, "collects-id", "signal", k.dec.Pos(), "nothing in the state of the decoder tells the letters of the id of the next key from those of the text") {
		return
	}
	var m, text, size *Term
	ghostText := intern(OGlobal, "ghost:next cipher letter", types.NewPointer(tInt))
	ghostId := intern(OGlobal, "ghost:letters of the id", types.NewPointer(tInt))
	undecoded := func(v *Term) *Term { return mkTag("undecoded", v) }
	owed := func(v *Term) *Term { return mkTag("owed-id", v) }
	undelivered := func(v *Term) *Term { return mkTag("undelivered", v) }
	collected := func(v *Term) *Term { return mkTag("collected", v) }
	wipes := modelWipe(c.P)
	debts := func(st *State, pos tokenPos) {
		c.Ob(len(tagsNamed(st.may, "undecoded")) == 0, "deciphers-all", "decoded", pos, "a deciphered letter may not be given to the decoder")
		c.Ob(len(tagsNamed(st.may, "owed-id")) == 0, "collects-id", "letter", pos, "a letter of the id of the next key may be lost")
	}
	fork := func(st *State, res *Term) *State {
		bad := st.clone()
		bad.assume(mkEq(res, mkNil()), false)
		bad.tag(mkTag("failed"))
		st.assume(mkEq(res, mkNil()), true)
		return bad
	}
	h := Hooks{
		Ess: essAll,
		EssTag: func(t *Term) bool {
			switch t.name {
			case "undecoded", "owed-id", "undelivered", "collected", "failed", "unreset":
				return true
			}
			return false
		},
		MoveTag: func(t *Term) bool { return t.name == "undelivered" || t.name == "collected" },
		Call: func(e *Engine, st *State, cl *Call) ([]CallOut, bool) {
			if cl.is(c.P, "", "Wipe", "ZeroWipe", "RandomWipe") && fieldName(cl.Args[0]) == "Message.PlainText" && cl.Args[0].args[0] == m {
				st.tag(mkTag("emptied"))
			}
			if o, ok := wipes(e, st, cl); ok {
				return o, true
			}
			switch {
			case cl.is(c.P, "", "Krypto431.NewUniqueMessageId"):
				return []CallOut{{St: st, Val: e.Result(cl)}}, true
			case cl.is(c.P, "", "Krypto431.GetKey"):
				id := cl.Args[1]
				if st.hasTag(mkTag("started")) {
					c.Ob(st.mayTag(collected(id)), "collects-id", "which", cl.Pos, "the next key is looked up by %s, which is not the id that was announced", id)
					g := e.readAt(st, ghostId)
					c.Ob(st.truth(mkEqInt(g, size)) == 1, "collects-id", "length", cl.Pos, "the next key may be looked up with %s letters of its id", g)
					st.store(ghostId, mkInt(0), tInt)
					st.tag(mkTag("room"))
					st.may[mkTag("unreset")] = true
				} else if a := fieldOf(m, "KeyId"); id == mkInit(a, pointee(a)) {
					st.tag(mkTag("named"))
				}
				tup := e.Result(cl)
				bad := fork(st, tup.args[1])
				st.assume(mkEq(tup.args[0], mkNil()), false)
				return []CallOut{{St: bad, Val: mkTuple([]*Term{mkNil(), tup.args[1]})}, {St: st, Val: mkTuple([]*Term{tup.args[0], mkNil()})}}, true
			case cl.is(c.P, "diana", "TrigraphRune"):
				in := cl.Args[2]
				if key, _ := keyOfRune(in); key != nil {
					in = cl.Args[1]
				}
				debts(st, cl.Pos)
				g := e.readAt(st, ghostText)
				ok := in.op == OIndex && in.args[0] == text && st.truth(mkEqInt(in.args[1], g)) == 1
				c.Ob(ok, "deciphers-all", "next", cl.Pos, "what is deciphered next is %s, and not the letter of the cipher text after the one before (%s)", in, g)
				setTag(st, mkTag("complete"), false)
				if ok {
					st.store(ghostText, linAdd(in.args[1], mkInt(1)), tInt)
				}
				c.Ob(st.hasTag(mkTag("named")), "collects-id", "first", cl.Pos, "the first key may not be the one the message names")
				st.tag(mkTag("started"))
				res := e.Result(cl)
				bad := fork(st, res)
				v := e.newSym(e.curFr, OSym, cl.Site, "letter", types.Typ[types.Rune], &SymInfo{Kind: "call", What: "the deciphered letter"})
				st.store(cl.Args[0], v, types.Typ[types.Rune])
				st.may[undecoded(v)] = true
				return []CallOut{{St: bad, Val: res}, {St: st, Val: mkNil()}}, true
			}
			switch k.how(cl.Fn) {
			case "reset", "new":
				c.Ob(!st.hasTag(mkTag("started")) || st.mayTag(mkTag("unreset")), "starts-afresh", "decoder", cl.Pos, "the decoder starts afresh where no key was announced")
				setTag(st, mkTag("unreset"), false)
				if len(cl.Args) > 0 {
					st.havoc(cl.Args[0])
				}
				return []CallOut{{St: st, Val: e.Result(cl)}}, true
			case "decode":
				v := cl.Args[1]
				if isPtr(v.typ) {
					v = e.readAt(st, v)
				}
				c.Ob(st.mayTag(undecoded(v)), "deciphers-all", "letter", cl.Pos, "the decoder reads %s, which is not the letter that was deciphered last", v)
				c.Ob(!st.mayTag(mkTag("unreset")), "starts-afresh", "Decipher", cl.Pos, "a letter may be decoded after a change of key without starting afresh")
				delete(st.may, undecoded(v))
				out := cl.Args[2]
				old := e.readAt(st, out)
				if fieldName(out) == "Message.PlainText" && out.args[0] == m {
					c.Ob(st.hasTag(mkTag("emptied")), "plain-text", "empty", cl.Pos, "the plain text may not be empty when the first letter is decoded")
				}
				c.Ob(st.mayTag(undelivered(old)) || isZeroLen(st, old), "plain-text", "list", cl.Pos, "the text goes to %s, which may not hold the text read so far", old)
				st.havoc(cl.Args[0])
				res := e.Result(cl)
				bad := fork(st, res)
				field := mkField(cl.Args[0], k.state, si)
				ft := k.fields()[si].Type()
				idl := st.clone()
				// a letter of the text
				delete(st.may, undelivered(old))
				nv := e.newSym(e.curFr, OSym, cl.Site, "text", pointee(out), &SymInfo{Kind: "call", What: "the text read so far"})
				st.store(out, nv, pointee(out))
				st.may[undelivered(nv)] = true
				if within.op == OConst && within.cv != nil && within.cv.Kind() == constant.Bool {
					st.store(field, mkBool(!constant.BoolVal(within.cv)), ft)
				} else {
					fv := e.newSym(e.curFr, OSym, cl.Site, "signal", ft, &SymInfo{Kind: "call", What: "the state of the decoder"})
					st.store(field, fv, ft)
					st.assume(mkEq(fv, within), false)
				}
				// a letter of an id
				g := e.readAt(idl, ghostId)
				if idl.hasTag(mkTag("room")) {
					idl.assume(mkLt(g, size), true)
				}
				setTag(idl, mkTag("room"), false)
				c.Ob(idl.truth(mkLt(g, size)) == 1, "collects-id", "switch", cl.Pos, "the next letter may be read before the next key is looked up, although its id is complete (%s letters)", g)
				idl.store(ghostId, linAdd(g, mkInt(1)), tInt)
				idl.store(field, within, ft)
				idl.may[owed(v)] = true
				return []CallOut{{St: bad, Val: res}, {St: idl, Val: mkNil()}, {St: st, Val: mkNil()}}, true
			}
			return nil, false
		},
		Append: func(e *Engine, st *State, base *Term, elems []*Term, spread, res *Term, in ssa.Instruction) {
			if res == nil || spread != nil || len(elems) != 1 || !isRune(elemType(res.typ)) {
				return
			}
			v := elems[0]
			if !st.mayTag(owed(v)) {
				return
			}
			pos := e.curFr.fn.Pos()
			if in != nil {
				pos = in.Pos()
			}
			n := linAdd(mkLen(base), mkInt(1))
			ok := st.truth(mkEqInt(n, e.readAt(st, ghostId))) == 1
			if ok {
				// kept when the list before is forgotten
				st.facts[mkEqInt(mkLen(res), e.readAt(st, ghostId))] = true
			}
			c.Ob(ok, "collects-id", "list", pos, "a letter of the id goes to a list (%s) that may not hold just the letters of the id before it", base)
			delete(st.may, owed(v))
			delete(st.may, collected(base))
			st.may[collected(res)] = true
		},
		Store: func(e *Engine, st *State, addr, val *Term, in ssa.Instruction) {
			if fieldName(addr) == "Message.PlainText" && addr.args[0] == m {
				if isZeroLen(st, val) {
					c.Ob(!st.hasTag(mkTag("started")), "plain-text", "kept", in.Pos(), "the text read so far is dropped")
					st.tag(mkTag("emptied"))
				} else {
					c.Ob(st.mayTag(undelivered(val)), "plain-text", "only", in.Pos(), "the plain text is set to %s, which was not read by the decoder", val)
				}
			}
		},
		Assume: func(e *Engine, st *State, cond *Term, v bool, in ssa.Instruction) {
			if st.hasTag(mkTag("complete")) && st.hasTag(mkTag("room")) {
				return
			}
			t := st.clone()
			if !t.assume(cond, v) {
				return
			}
			if g := t.heap[ghostText]; g != nil && t.truth(mkEqInt(g, mkLen(text))) == 1 {
				st.tag(mkTag("complete"))
			}
			if g := t.heap[ghostId]; g != nil && t.truth(mkLt(g, size)) == 1 {
				st.tag(mkTag("room"))
			}
		},
		Return: func(e *Engine, st *State, f *ssa.Function, depth int, vals []*Term, pos tokenPos) {
			if depth != 0 || succeeds(st, f, vals) != 1 {
				return
			}
			debts(st, pos)
			c.Ob(st.hasTag(mkTag("complete")), "deciphers-all", "all", pos, "deciphering may succeed without having read the whole cipher text")
			c.Ob(!st.mayTag(mkTag("failed")), "deciphers-all", "failed", pos, "deciphering may succeed although a letter could not be read")
			plain := e.readAt(st, fieldOf(m, "PlainText"))
			for _, t := range tagsNamed(st.may, "undelivered") {
				c.Ob(t.args[0] == plain, "plain-text", "result", pos, "the text that was read (%s) may not be the plain text of the message (%s)", t.args[0], plain)
			}
		},
	}
	e := c.NewEngine(h)
	e.h.Opaque = e.AutoOpaque(func(s string) bool {
		return strings.Contains(s, ".Key#") || strings.Contains(s, ".Message#") || strings.Contains(s, ".Krypto431#")
	}, func(f *ssa.Function) bool {
		return c.P.isFn(f, "", "Krypto431.GetKey") || c.P.isFn(f, "diana", "TrigraphRune") || c.P.isFn(f, "", "Wipe") || k.how(f) != ""
	}, func(t types.Type) bool { return typeIs(t, "", "Key") })
	e.Run(fn, func(st *State, args []*Term) {
		m = args[0]
		text = e.readAt(st, fieldOf(m, "CipherText"))
		inst := e.readAt(st, fieldOf(m, "instance"))
		size = e.readAt(st, fieldOf(inst, "GroupSize"))
		st.assume(mkLe(mkInt(1), size), true)
		st.heap[ghostText] = mkInt(0)
		st.heap[ghostId] = mkInt(0)
		st.tag(mkTag("room"))
	})
}

func (c *Ctx) named(n string) types.Type {
	t, _ := c.P.Struct("", n)
	return t
}
