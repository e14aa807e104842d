package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C28", Run: checkC28, Explain: "Abstract interpretation of NewTextMessage, of the functions that read the text for it and of NewUniqueMessageId, over all paths, with parsing, enciphering and deciphering split into success and failure. Rules: the list of messages only ever changes by one append of the parsed message, after it was enciphered (own call-sign) or deciphering was tried (other call-sign); success is reported exactly when that happened, otherwise the message was wiped; a key id that was given reaches the message whole, with the length checked, before it is enciphered; an id is handed out only after it was compared with the id of every message.",
		Assume: []string{"Message.Encipher enciphers the message when it reports success (C04-C07)", "the wiping functions wipe (C09)"}})
}

// ---- C28 ----

func entryOf(addr *Term) *Term {
	if addr == nil {
		return nil
	}
	return mkInit(addr, pointee(addr))
}

// notEqTags is an Assume hook: ne(a, b) for sequences found different.
func notEqTags(e *Engine, st *State, cond *Term, v bool, in ssa.Instruction) {
	if cond.op == ONot {
		cond, v = cond.args[0], !v
	}
	if isEqTerm(cond) && !v {
		st.tag(mkTag("ne", cond.args[0], cond.args[1]))
		st.tag(mkTag("ne", cond.args[1], cond.args[0]))
	}
}

// differsFromAll: id was compared with the field (like "Message.Id") of every element of list.
func differsFromAll(st *State, id, list *Term, field string) bool {
	if st.truth(mkEqInt(mkLen(list), mkInt(0))) == 1 {
		return true
	}
	for _, t := range tagsNamed(st.must, "ne") {
		a := t.args[0]
		if t.args[1] != id || a.op != OInit || fieldName(a.args[0]) != field {
			continue
		}
		if ix := a.args[0].args[0]; ix.op == OIndex && ix.args[0] == list && ix.args[1].isWhole() {
			return true
		}
	}
	return false
}

// holds: the value v is (a copy of) what the variable at addr contains.
func (e *Engine) holds(st *State, addr, v *Term) bool {
	t := pointee(addr)
	if t == nil || v == nil {
		return false
	}
	if decomposable(t) {
		stt := t.Underlying().(*types.Struct)
		for i := 0; i < stt.NumFields(); i++ {
			if !e.holds(st, mkField(addr, t, i), mkFieldVal(v, t, i)) {
				return false
			}
		}
		return true
	}
	if e.readAt(st, addr) == v || st.heap[addr] == v {
		return true
	}
	s, _ := copyOf(st, v)
	return s == e.readAt(st, addr)
}

func checkC28(c *Ctx) {
	checkEqualFns(c)
	c.newTextMessage()
	for _, name := range []string{"NewTextMessageFromReader", "PromptNewTextMessage"} {
		c.readsMessage(name)
	}
	c.uniqueMessageID()
	for ru, n := range map[string]int{"records": 1, "enciphered": 1, "outcome": 4, "key-id": 1, "unique-id": 1, "hands-on": 3, "parsed": 2} {
		c.Need(ru, n)
	}
}

func (c *Ctx) newTextMessage() {
	fn := c.fn("", "Krypto431.NewTextMessage")
	if fn == nil || len(fn.Params) != 2 {
		return
	}
	var k, arg *Term
	mineT := func(m *Term) *Term { return mkTag("mine", m) }
	message := func(st *State) *Term {
		for _, t := range tagsNamed(st.must, "parsed") {
			return t.args[0]
		}
		return nil
	}
	e := c.NewEngine(Hooks{
		Ess:    essAll,
		EssTag: func(t *Term) bool { return t.name == "added" || t.name == "parsed" },
		Assume: func(e *Engine, st *State, cond *Term, v bool, in ssa.Instruction) {
			if cond.op == ONot {
				cond, v = cond.args[0], !v
			}
			if !isEqTerm(cond) {
				return
			}
			m := message(st)
			if m == nil {
				return
			}
			from, call := e.readAt(st, fieldOf(m, "From")), e.readAt(st, fieldOf(k, "CallSign"))
			if a, b := cond.args[0], cond.args[1]; (a == from && b == call || b == from && a == call) && cond.name == "equalFold" {
				if v {
					st.tag(mineT(m))
				} else {
					st.tag(mkTag("theirs", m))
				}
			}
		},
		Call: chain(modelWipe(c.P), modelEqual(c.P), func(e *Engine, st *State, cl *Call) ([]CallOut, bool) {
			switch {
			case cl.is(c.P, "", "Krypto431.ParseRadiogram"):
				c.Ob(message(st) == nil && len(tagsNamed(st.may, "parsed")) == 0, "parsed", "once", cl.Pos, "NewTextMessage may parse several messages")
				c.Ob(cl.Args[0] == k && elemOfArg(cl.Args[1], arg, 0), "parsed", "text", cl.Pos, "NewTextMessage may parse something else than the text it was given (%s)", cl.Args[1])
				return fallible(e, st, cl, func(st *State, res []*Term) {
					st.assume(mkEq(res[0], mkNil()), false)
					st.tag(mkTag("parsed", res[0]))
					st.know(fieldOf(res[0], "instance"), k)
				}, nil), true
			case cl.is(c.P, "", "Message.Encipher"):
				m := cl.Args[0]
				c.Ob(!st.mayTag(mkTag("added", m)), "enciphered", "order", cl.Pos, "NewTextMessage may encipher a message that is recorded already")
				id := e.readAt(st, fieldOf(m, "KeyId"))
				two := mkLe(mkInt(2), mkLen(arg))
				switch st.truth(two) {
				case -1:
				default:
					gs := e.readAt(st, fieldOf(k, "GroupSize"))
					from := id != nil && id.contains(func(x *Term) bool { return elemOfArg(x, arg, 1) })
					for _, t := range tagsNamed(st.must, "conv") {
						from = from || t.args[0] == id && t.args[1].contains(func(x *Term) bool { return elemOfArg(x, arg, 1) })
					}
					c.Ob(from && id != nil && !id.contains(shortens), "key-id", "NewTextMessage", cl.Pos, "NewTextMessage may encipher with another key than the one that was named")
					c.Ob(id != nil && st.truth(mkEqInt(mkLen(id), gs)) == 1, "key-id", "NewTextMessage length", cl.Pos, "NewTextMessage may accept a key id that has not the group size")
				}
				e.effects(st, cl)
				st.know(fieldOf(m, "instance"), k)
				return fallible(e, st, cl, func(st *State, res []*Term) { st.tag(mkTag("enciphered", m)) }, func(st *State, res []*Term) { st.tag(mkTag("refused", m)) }), true
			case cl.is(c.P, "", "Message.TryDecipherPlainText"):
				m := cl.Args[0]
				e.effects(st, cl)
				st.know(fieldOf(m, "instance"), k)
				st.tag(mkTag("tried", m))
				return fallible(e, st, cl, nil, nil), true
			case cl.is(c.P, "", "Message.AddRecipient"):
				e.effects(st, cl)
				return []CallOut{{St: st, Val: cl.Args[0]}}, true
			}
			return nil, false
		}),
		Append: func(e *Engine, st *State, base *Term, elems []*Term, spread, res *Term, in ssa.Instruction) {
			if res == nil || !isSlice(res.typ) || elemType(res.typ) == nil || !isModType(c.P, elemType(res.typ), "Message") {
				return
			}
			m := message(st)
			if m == nil || spread != nil || len(elems) != 1 || base != entryOf(fieldOf(k, "Messages")) {
				return
			}
			if e.holds(st, m, elems[0]) {
				st.tag(mkTag("list", res, m))
			}
		},
		Store: func(e *Engine, st *State, addr, val *Term, in ssa.Instruction) {
			if addr.op == OIndex && isModType(c.P, pointee(addr), "Message") {
				// an element of a list, not a local variable
				if b := addr.args[0]; b.op == OInit {
					c.Ob(false, "records", "NewTextMessage", in.Pos(), "NewTextMessage changes a message of the store")
				}
			}
			if !isFieldOf(addr, k, "Messages") {
				return
			}
			m := message(st)
			if !c.Ob(m != nil && st.hasTag(mkTag("list", val, m)), "records", "NewTextMessage", in.Pos(), "NewTextMessage may record something else than one message, the new one, added to those there (%s)", val) {
				return
			}
			st.tag(mkTag("added", m))
			mine, theirs := st.hasTag(mineT(m)), st.hasTag(mkTag("theirs", m))
			switch {
			case mine:
				c.Ob(st.hasTag(mkTag("enciphered", m)), "enciphered", "mine", in.Pos(), "NewTextMessage may record an outgoing message that was not enciphered successfully")
			case theirs:
				c.Ob(st.hasTag(mkTag("tried", m)) && !st.mayTag(mkTag("enciphered", m)) && !st.mayTag(mkTag("refused", m)), "enciphered", "theirs", in.Pos(), "NewTextMessage may record an incoming message without having tried to decipher it, or enciphers it")
			default:
				c.Ob(false, "enciphered", "unknown", in.Pos(), "NewTextMessage may record a message without having compared its sender with the own call-sign")
			}
		},
		Return: func(e *Engine, st *State, f *ssa.Function, depth int, vals []*Term, pos token.Pos) {
			if depth != 0 {
				return
			}
			m := message(st)
			must, may := m != nil && st.hasTag(mkTag("added", m)), len(tagsNamed(st.may, "added")) > 0
			switch succeeds(st, f, vals) {
			case 1:
				c.Ob(must, "outcome", "success", pos, "NewTextMessage may report success without having recorded the message")
				c.Ob(m != nil && vals[0] == m, "outcome", "result", pos, "NewTextMessage may return something else than the new message")
				c.Ob(m == nil || !st.mayTag(mkTag("wipedObj", m)), "outcome", "kept", pos, "NewTextMessage may wipe the message it has recorded")
			case -1:
				c.Ob(m == nil || !st.mayTag(mkTag("theirs", m)) || st.hasTag(mineT(m)), "outcome", "received", pos, "NewTextMessage may refuse an incoming message")
				c.Ob(!may, "outcome", "failure", pos, "NewTextMessage may report an error although it has recorded the message")
				c.Ob(m == nil || st.hasTag(mkTag("wipedObj", m)), "outcome", "wiped", pos, "NewTextMessage may leave the text of a refused message in memory")
			default:
				c.Ob(false, "outcome", "undecided", pos, "it can not be decided whether NewTextMessage reports success")
			}
		},
	})
	e.Run(fn, func(st *State, args []*Term) { k, arg = args[0], args[1] })
}

// shortens: x is a part of a text, or something else made of it than the same
// text in capitals and without blanks around it.
func shortens(x *Term) bool {
	switch x.op {
	case OSlice:
		return true
	case OCall:
		return strings.HasPrefix(x.name, "strings.") && x.name != "strings.ToUpper" && x.name != "strings.TrimSpace" && x.name != "strings.Clone"
	}
	return false
}

// elemOfArg: x is element i of the list the function was given.
func elemOfArg(x, list *Term, i int64) bool {
	if x == nil || x.op != OInit || x.args[0].op != OIndex || x.args[0].args[0] != list {
		return false
	}
	n, ok := x.args[0].args[1].intVal()
	return ok && n == i
}

// readsMessage: the function reads a text and hands it to NewTextMessage.
func (c *Ctx) readsMessage(name string) {
	fn := c.fn("", "Krypto431."+name)
	if fn == nil {
		return
	}
	e := c.NewEngine(Hooks{
		Ess: essAll,
		Call: func(e *Engine, st *State, cl *Call) ([]CallOut, bool) {
			if !cl.is(c.P, "", "Krypto431.NewTextMessage", "Krypto431.NewTextMessageFromReader") {
				return nil, false
			}
			if cl.is(c.P, "", "Krypto431.NewTextMessageFromReader") && name == "NewTextMessageFromReader" {
				return nil, false
			}
			c.Ob(!st.mayTag(mkTag("new")), "hands-on", name+" once", cl.Pos, "%s may record a message twice", name)
			st.tag(mkTag("new"))
			return fallible(e, st, cl, func(st *State, res []*Term) { st.tag(mkTag("recorded", res[0])) }, nil), true
		},
		Return: func(e *Engine, st *State, f *ssa.Function, depth int, vals []*Term, pos token.Pos) {
			if depth != 0 {
				return
			}
			switch succeeds(st, f, vals) {
			case 1:
				c.Ob(st.hasTag(mkTag("recorded", vals[0])), "hands-on", name, pos, "%s may report success without having recorded the message", name)
			default:
				c.Ob(len(tagsNamed(st.may, "recorded")) == 0, "hands-on", name, pos, "%s may report an error although the message was recorded", name)
			}
		},
	})
	e.Run(fn, nil)
}

func (c *Ctx) uniqueMessageID() {
	fn := c.fn("", "Krypto431.NewUniqueMessageId")
	if fn == nil {
		return
	}
	var k *Term
	e := c.NewEngine(Hooks{
		Call:   chain(modelEqual(c.P), modelFresh(c.P, "RandomAlnumRunes")),
		Assume: notEqTags,
		Return: func(e *Engine, st *State, f *ssa.Function, depth int, vals []*Term, pos token.Pos) {
			if depth != 0 {
				return
			}
			id := vals[0]
			c.Ob(differsFromAll(st, id, entryOf(fieldOf(k, "Messages")), "Message.Id"), "unique-id", "NewUniqueMessageId", pos, "a message id may be handed out without having been compared with the id of every message")
		},
	})
	e.Run(fn, func(st *State, args []*Term) { k = args[0] })
	// the id of a new message comes from there
	parse := c.fn("", "Krypto431.ParseRadiogram")
	if parse == nil {
		return
	}
	e2 := c.NewEngine(Hooks{
		Call: func(e *Engine, st *State, cl *Call) ([]CallOut, bool) {
			if cl.is(c.P, "", "Krypto431.NewUniqueMessageId") {
				v := e.Result(cl)
				st.tag(mkTag("newid", v))
				return []CallOut{{St: st, Val: v}}, true
			}
			return nil, false
		},
		Return: func(e *Engine, st *State, f *ssa.Function, depth int, vals []*Term, pos token.Pos) {
			if depth != 0 || succeeds(st, f, vals) != 1 {
				return
			}
			id, in := fieldOf(vals[0], "Id"), fieldOf(vals[0], "instance")
			ok := id != nil && st.hasTag(mkTag("newid", e.readAt(st, id)))
			c.Ob(ok, "unique-id", "ParseRadiogram", pos, "a parsed message may have an id that was not made for it")
			c.Ob(in != nil && e.readAt(st, in) == k, "unique-id", "ParseRadiogram instance", pos, "a parsed message may not belong to the instance")
		},
	})
	e2.Run(parse, func(st *State, args []*Term) { k = args[0] })
}

// isModType: t is the named type of the module's main package.
func isModType(p *Program, t types.Type, name string) bool {
	n := namedOf(t)
	return n != nil && n.Obj().Name() == name && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == modPath
}
