package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C09", Run: checkC09, Explain: "Abstract interpretation of every wiping function and method, over all paths, with each read of random numbers split into success and failure. Rule: on every return each element of every secret sequence (as it was at entry) has been overwritten, by a successful read of random numbers into all of it, or by a value that does not come from the old content in a loop over all indices; and the variable no longer refers to the sequence. Wiping the store wipes every key, every message, the persistence key and the salt.",
		Assume: []string{"crand.Read and crand.ReadRunes fill the whole slice when they report no error (C02)"}})
}

// ---- C09 ----

// wipeHooks tag gone(p) for the elements p of a sequence that have been
// overwritten.
func wipeHooks(c *Ctx, name string, extra callModel, ret func(e *Engine, st *State, f *ssa.Function, depth int, vals []*Term, pos token.Pos)) Hooks {
	elems := func(s *Term) *Term {
		et := elemType(s.typ)
		if et == nil {
			return nil
		}
		return mkIndexRaw(s, mkAll(""), types.NewPointer(et))
	}
	whole := func(st *State, s *Term) {
		if a := elems(s); a != nil {
			st.tag(mkTag("gone", a))
		}
	}
	call := func(e *Engine, st *State, cl *Call) ([]CallOut, bool) {
		if cl.is(c.P, "crand", "Read", "ReadRunes") || cl.std("crypto/rand.Read") {
			s := cl.Args[0]
			return fallible(e, st, cl, func(st *State, res []*Term) {
				st.assume(mkEqInt(res[0], mkLen(s)), true)
				whole(st, s)
			}, nil), true
		}
		return nil, false
	}
	return Hooks{
		EssCell: func(a *Term) bool { return a.op == OIndex && isPtr(pointee(a)) },
		EssTag:  func(t *Term) bool { return t.name == "nilled" || t.name == "wipedObj" },
		Call:    chain(call, extra),
		Clear:   func(e *Engine, st *State, x *Term, in ssa.Instruction) { whole(st, x) },
		Store: func(e *Engine, st *State, addr, val *Term, in ssa.Instruction) {
			if addr.op == OIndex && isSlice(addr.args[0].typ) && !val.contains(func(x *Term) bool { return x.op == OInit }) {
				st.tag(mkTag("gone", addr))
			}
			// a variable may only let go of what has been overwritten
			if addr.op != OField && addr.op != OInit && !isParamSym(addr) || !isSlice(pointee(addr)) || !isRuneOrByte(elemType(pointee(addr))) {
				return
			}
			old := e.readAt(st, addr)
			c.Ob(overwritten(st, old), "overwritten", name+" "+fieldName(addr), in.Pos(), "%s may let go of %s without having overwritten every element", name, what(addr))
			setTag(st, mkTag("nilled", addr), val.isNil())
		},
		Return: ret,
	}
}

// overwritten: every element of the sequence s has been overwritten (or it has none).
func overwritten(st *State, s *Term) bool {
	if s == nil {
		return false
	}
	if isNilT(st, s) == 1 || isZeroLen(st, s) {
		return true
	}
	for _, t := range tagsNamed(st.must, "gone") {
		x := t.args[0]
		if x.op == OIndex && x.args[1].isWhole() && (x.args[0] == s || sameAll(x.args[0], s)) {
			return true
		}
	}
	return false
}

func isRuneOrByte(t types.Type) bool {
	return t != nil && (types.Identical(t, types.Typ[types.Rune]) || types.Identical(t, types.Typ[types.Byte]))
}

func what(addr *Term) string {
	if n := fieldName(addr); n != "" {
		return n
	}
	return addr.String()
}

// nilled: the variable at addr was made to refer to nothing.
func nilled(e *Engine, st *State, addr *Term) bool {
	cur := e.readAt(st, addr)
	return st.hasTag(mkTag("nilled", addr)) || cur != nil && isNilT(st, cur) == 1
}

// sameAll: equal up to the names of universally quantified indices.
func sameAll(a, b *Term) bool {
	if a == b {
		return true
	}
	if a.op != b.op || len(a.args) != len(b.args) {
		return false
	}
	if a.op == OAll {
		return true
	}
	if a.name != b.name || a.obj != b.obj || len(a.args) == 0 {
		return false
	}
	for i := range a.args {
		if !sameAll(a.args[i], b.args[i]) {
			return false
		}
	}
	return true
}

func checkC09(c *Ctx) {
	slices := []string{"Wipe", "RandomWipe", "ZeroWipe", "WipeBytes", "RandomWipeBytes", "ZeroWipeBytes"}
	for _, name := range slices {
		fn := c.fn("", name)
		if fn == nil || len(fn.Params) != 1 {
			continue
		}
		var ptr *Term
		e := c.NewEngine(wipeHooks(c, name, nil, func(e *Engine, st *State, f *ssa.Function, depth int, vals []*Term, pos token.Pos) {
			if depth != 0 || isNilT(st, ptr) == 1 {
				return
			}
			c.Ob(nilled(e, st, ptr), "released", name, pos, "%s may return without having overwritten the elements and released them", name)
		}))
		e.unrollMax = 8
		e.Run(fn, func(st *State, args []*Term) { ptr = args[0] })
	}
	secret := map[string][]string{
		"Key":     {"Runes", "Id", "Comment"},
		"Message": {"PlainText", "CipherText", "KeyId", "Radiogram", "Binary"},
		"chunk":   {"encodedText"},
	}
	for _, typ := range []string{"Key", "Message", "chunk"} {
		for _, m := range []string{"Wipe", "RandomWipe", "ZeroWipe"} {
			name := typ + "." + m
			fn := c.P.Func("", name)
			if fn == nil {
				if typ != "chunk" {
					c.fn("", name)
				}
				continue
			}
			var obj *Term
			e := c.NewEngine(wipeHooks(c, name, nil, func(e *Engine, st *State, f *ssa.Function, depth int, vals []*Term, pos token.Pos) {
				if depth != 0 || isNilT(st, obj) == 1 {
					return
				}
				for _, fld := range secret[typ] {
					a := fieldOf(obj, fld)
					if a == nil {
						c.Undecided("field:"+typ+"."+fld, fn.Pos(), "%s has no field %s", typ, fld)
						continue
					}
					c.Ob(nilled(e, st, a), "released", name+" "+fld, pos, "%s may return without having overwritten %s and released it", name, fld)
				}
			}))
			e.unrollMax = 8
			e.Run(fn, func(st *State, args []*Term) { obj = args[0] })
		}
	}
	for _, name := range []string{"Krypto431.Wipe", "Krypto431.Close"} {
		fn := c.fn("", name)
		if fn == nil {
			continue
		}
		var k *Term
		wiped := func(e *Engine, st *State, cl *Call) ([]CallOut, bool) {
			if cl.is(c.P, "", "Key.Wipe", "Key.RandomWipe", "Key.ZeroWipe", "Message.Wipe", "Message.RandomWipe", "Message.ZeroWipe") {
				return modelWipe(c.P)(e, st, cl)
			}
			return nil, false
		}
		e := c.NewEngine(wipeHooks(c, name, wiped, func(e *Engine, st *State, f *ssa.Function, depth int, vals []*Term, pos token.Pos) {
			if depth != 0 {
				return
			}
			for _, fld := range []string{"Keys", "Messages"} {
				a := fieldOf(k, fld)
				s := mkInit(a, pointee(a))
				ok := isNilT(st, s) == 1 || isZeroLen(st, s)
				for _, t := range tagsNamed(st.must, "wipedObj") {
					x := t.args[0]
					ok = ok || x.op == OIndex && x.args[0] == s && x.args[1].isWhole()
				}
				c.Ob(ok, "store-wiped", name+" "+fld, pos, "%s may return without having wiped every element of %s", name, fld)
			}
			for _, fld := range []string{"persistenceKey", "salt"} {
				a := fieldOf(k, fld)
				p := mkInit(a, pointee(a))
				if isNilT(st, p) == 1 {
					continue
				}
				c.Ob(nilled(e, st, p), "store-wiped", name+" "+fld, pos, "%s may return without having overwritten the %s", name, strings.Replace(fld, "persistenceKey", "persistence key", 1))
			}
		}))
		e.unrollMax = 8
		e.Run(fn, func(st *State, args []*Term) { k = args[0] })
	}
	c.Need("overwritten", 20)
	c.Need("released", 25)
	c.Need("store-wiped", 8)
}
