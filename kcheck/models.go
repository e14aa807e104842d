package main

import (
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- models of functions that several checks treat by contract ----

type callModel func(e *Engine, st *State, c *Call) ([]CallOut, bool)

func chain(ms ...callModel) callModel {
	return func(e *Engine, st *State, c *Call) ([]CallOut, bool) {
		for _, m := range ms {
			if m == nil {
				continue
			}
			if o, ok := m(e, st, c); ok {
				return o, true
			}
		}
		return nil, false
	}
}

// is tells whether the call is to the named module function or method.
func (c *Call) is(p *Program, rel string, names ...string) bool {
	if c.Fn == nil || !p.InModule(c.Fn) {
		return false
	}
	for _, n := range names {
		if p.isFn(c.Fn, rel, n) {
			return true
		}
	}
	return false
}

// std tells whether the call is to one of the named functions outside the module.
func (c *Call) std(names ...string) bool {
	if c.Fn != nil {
		s := c.Fn.String()
		if o := c.Fn.Origin(); o != nil {
			s = o.String()
		}
		for _, n := range names {
			if s == n {
				return true
			}
		}
		return false
	}
	for _, n := range names {
		if c.Name == n {
			return true
		}
	}
	return false
}

// readAt is the value of the cell at an address, without side effects.
func (e *Engine) readAt(st *State, addr *Term) *Term {
	t := pointee(addr)
	if t == nil {
		return nil
	}
	return e.peek(st, addr, t)
}

// elemBase returns the slice an element value was read from (as it was at
// entry), or nil.
func elemBase(v *Term) *Term {
	if v.op == OInit && v.args[0].op == OIndex {
		return v.args[0].args[0]
	}
	return nil
}

// eqTerm is the boolean "the rune sequences a and b are equal"; fold ignores
// letter case.
func eqTerm(a, b *Term, fold bool) *Term {
	if b.id < a.id {
		a, b = b, a
	}
	n := "equal"
	if fold {
		n = "equalFold"
	}
	return intern(OCall, n, tBool, a, b)
}

func isEqTerm(t *Term) bool {
	return t.op == OCall && (t.name == "equal" || t.name == "equalFold")
}

// modelEqual: EqualRunes and EqualRunesFold by their contract (which is checked
// on their bodies by checkEqualFns), and slices.Equal.
func modelEqual(p *Program) callModel {
	return func(e *Engine, st *State, c *Call) ([]CallOut, bool) {
		fold := c.is(p, "", "EqualRunesFold")
		switch {
		case fold, c.is(p, "", "EqualRunes"):
			a, b := e.readPtr(st, c, c.Args[0]), e.readPtr(st, c, c.Args[1])
			if a == nil || b == nil {
				return nil, false
			}
			return []CallOut{{St: st, Val: eqTerm(a, b, fold)}}, true
		case c.std("slices.Equal"):
			return []CallOut{{St: st, Val: eqTerm(c.Args[0], c.Args[1], false)}}, true
		}
		return nil, false
	}
}

// readPtr reads *p for a pointer argument that is known not to be nil.
func (e *Engine) readPtr(st *State, c *Call, p *Term) *Term {
	if p.isNil() || !p.nonNil() && isNilT(st, p) != -1 && !isParamSym(p) {
		if isNilT(st, p) != -1 {
			// a pointer that may be nil: the callee decides
			if p.op != OField && p.op != OIndex && p.op != OAlloc && p.op != OGlobal {
				return nil
			}
		}
	}
	t := pointee(p)
	rs := e.load(e.curFr, st, p, t, c.Site, "eq"+itoa(p.id))
	if len(rs) != 1 {
		return nil
	}
	return rs[0].t
}

// matchTags is an Assume hook: when a and b are found equal, the element a is
// matched by the sequence b is an element of, and the other way around.
func matchTags(e *Engine, st *State, cond *Term, v bool, in ssa.Instruction) {
	if cond.op == ONot {
		matchTags(e, st, cond.args[0], !v, in)
		return
	}
	if !v {
		return
	}
	var a, b *Term
	switch {
	case isEqTerm(cond):
		a, b = cond.args[0], cond.args[1]
	case cond.op == OEq:
		// string(a) == string(b)
		x, y := cond.args[0], cond.args[1]
		if x.op == OConv && y.op == OConv && isString(x.typ) && isString(y.typ) {
			a, b = x.args[0], y.args[0]
		}
	}
	if a == nil {
		return
	}
	st.tag(mkTag("eq", a, b))
	st.tag(mkTag("eq", b, a))
	if s := elemBase(b); s != nil {
		st.tag(mkTag("matched", a, s))
	}
	if s := elemBase(a); s != nil {
		st.tag(mkTag("matched", b, s))
	}
}

// checkEqualFns verifies the contract of EqualRunes and EqualRunesFold: true
// means equal length and every pair of runes at the same index compared equal
// (after upper-casing both), false means a difference was found.
func checkEqualFns(c *Ctx) {
	for _, n := range []string{"EqualRunes", "EqualRunesFold"} {
		fn := c.fn("", n)
		if fn == nil {
			continue
		}
		fold := n == "EqualRunesFold"
		var pa, pb *Term
		up := func(t *Term) *Term {
			if fold && t.op == OCall && strings.HasSuffix(t.name, "unicode.ToUpper") {
				return t.args[0]
			}
			return t
		}
		pair := func(st *State, cond *Term) (*Term, bool) { // index of a compared pair
			if cond.op != OEq0 && cond.op != OEq {
				return nil, false
			}
			var x, y *Term
			if cond.op == OEq {
				x, y = cond.args[0], cond.args[1]
			} else {
				l := lin(cond.args[0])
				if len(l.atoms) != 2 || l.c != 0 {
					return nil, false
				}
				for a, k := range l.atoms {
					if k == 1 {
						x = a
					} else if k == -1 {
						y = a
					}
				}
			}
			if x == nil || y == nil || fold && (up(x) == x || up(y) == y) {
				return nil, false
			}
			x, y = up(x), up(y)
			if x.op != OInit || y.op != OInit || x.args[0].op != OIndex || y.args[0].op != OIndex {
				return nil, false
			}
			bx, by := x.args[0].args[0], y.args[0].args[0]
			a, b := mkInit(pa, pointee(pa)), mkInit(pb, pointee(pb))
			if (bx == a && by == b || bx == b && by == a) && x.args[0].args[1] == y.args[0].args[1] {
				return x.args[0], true
			}
			return nil, false
		}
		e := c.NewEngine(Hooks{
			Ess: func(f *Term) bool { return true },
			Assume: func(e *Engine, st *State, cond *Term, v bool, in ssa.Instruction) {
				if cond.op == ONot {
					cond, v = cond.args[0], !v
				}
				if ix, ok := pair(st, cond); ok {
					if v {
						st.tag(mkTag("same", ix))
						a, b := mkInit(pa, pointee(pa)), mkInit(pb, pointee(pb))
						other := a
						if ix.args[0] == a {
							other = b
						}
						st.tag(mkTag("same", mkIndexRaw(other, ix.args[1], ix.typ)))
					} else {
						st.tag(mkTag("differ"))
					}
				}
			},
			Return: func(e *Engine, st *State, f *ssa.Function, depth int, vals []*Term, pos tokenPos) {
				if depth != 0 {
					return
				}
				a, b := mkInit(pa, pointee(pa)), mkInit(pb, pointee(pb))
				v, known := vals[0].boolVal()
				if !known {
					// a result computed by a call: slices.Equal
					c.Ob(vals[0] == eqTerm(a, b, fold), "equal-contract", n, pos, "%s returns %s, which is not known to compare its arguments", n, vals[0])
					return
				}
				nilA, nilB := isNilT(st, pa), isNilT(st, pb)
				lenEq := st.truth(mkEqInt(mkLen(a), mkLen(b)))
				all := false
				for t := range st.must {
					if t.op == OTag && t.name == "same" {
						x := t.args[0]
						if x.op == OIndex && x.args[1].isWhole() && (x.args[0] == a || x.args[0] == b) {
							all = true
						}
					}
				}
				empty := st.truth(mkEqInt(mkLen(a), mkInt(0))) == 1 || st.truth(mkEqInt(mkLen(b), mkInt(0))) == 1
				if v {
					c.Ob(nilA == 1 && nilB == 1 || lenEq == 1 && (all || empty), "equal-contract", n, pos, "%s returns true without having compared the lengths and every rune", n)
				} else {
					c.Ob(nilA == 1 || nilB == 1 || lenEq == -1 || st.hasTag(mkTag("differ")), "equal-contract", n, pos, "%s returns false although no difference was found", n)
				}
			},
			Call: modelEqualStd,
		})
		e.Run(fn, func(st *State, args []*Term) {
			if len(args) == 2 {
				pa, pb = args[0], args[1]
			}
		})
	}
	c.Need("equal-contract", 4)
}

func modelEqualStd(e *Engine, st *State, c *Call) ([]CallOut, bool) {
	if c.std("slices.Equal") {
		return []CallOut{{St: st, Val: eqTerm(c.Args[0], c.Args[1], false)}}, true
	}
	return nil, false
}

var _ = token.NoPos

// know records that the cell at addr holds val, without a write.
func (s *State) know(addr, val *Term) {
	if _, ok := s.heap[addr]; !ok {
		s.heap[addr] = val
		return
	}
	cur := s.heap[addr]
	if isBool(cur.typ) {
		if b, ok := val.boolVal(); ok {
			s.assume(cur, b)
			return
		}
	}
	s.heap[addr] = val
}

// copyHook and appendCopyHook tag copied(new, src) when a new slice is filled
// with all elements of another one whose contents have not been overwritten.
func copyHook(e *Engine, st *State, dst, src *Term, in ssa.Instruction) {
	if st.truth(mkEqInt(mkLen(dst), mkLen(src))) == 1 && dst.op == OMake && !st.mayTag(mkTag("wiped", src)) {
		st.tag(mkTag("copied", dst, src))
	}
}

func appendCopyHook(e *Engine, st *State, base *Term, elems []*Term, spread, res *Term, in ssa.Instruction) {
	if spread != nil && (isNilT(st, base) == 1 || st.truth(mkEqInt(mkLen(base), mkInt(0))) == 1) && res.op != OInit && !st.mayTag(mkTag("wiped", spread)) {
		st.tag(mkTag("copied", res, spread))
	}
}

// modelClone: slices.Clone copies.
func modelClone(e *Engine, st *State, c *Call) ([]CallOut, bool) {
	if !c.std("slices.Clone", "bytes.Clone") {
		return nil, false
	}
	src := c.Args[0]
	v := e.Result(c)
	if v.op == OSym {
		st.assume(mkEqInt(mkLen(v), mkLen(src)), true)
		if !st.mayTag(mkTag("wiped", src)) {
			st.tag(mkTag("copied", v, src))
		}
	}
	return []CallOut{{St: st, Val: v}}, true
}

// copyOf follows copied tags from v to what it was copied from.
func copyOf(st *State, v *Term) (src *Term, copies int) {
	for {
		var n *Term
		for t := range st.must {
			if t.op == OTag && t.name == "copied" && t.args[0] == v {
				n = t.args[1]
			}
		}
		if n == nil || copies > 8 {
			return v, copies
		}
		v = n
		copies++
	}
}

// modelWipe: the wiping functions by their contract (checked by C09): the
// elements of the slice are overwritten and the slice variable becomes nil.
func modelWipe(p *Program) callModel {
	return func(e *Engine, st *State, c *Call) ([]CallOut, bool) {
		switch {
		case c.is(p, "", "Wipe", "RandomWipe", "ZeroWipe", "WipeBytes", "RandomWipeBytes", "ZeroWipeBytes"):
			ptr := c.Args[0]
			switch isNilT(st, ptr) {
			case 1:
				res := e.Result(c)
				st.assume(mkEq(res, mkNil()), false)
				return []CallOut{{St: st, Val: res}}, true
			case 0:
				no := st.clone()
				res := e.Result(c)
				if !no.assume(mkEq(ptr, mkNil()), true) {
					no = nil
				}
				st.assume(mkEq(ptr, mkNil()), false)
				e.wipeCell(st, c, ptr)
				outs := []CallOut{{St: st, Val: mkNil()}}
				if no != nil {
					no.assume(mkEq(res, mkNil()), false)
					outs = append(outs, CallOut{St: no, Val: res})
				}
				return outs, true
			}
			e.wipeCell(st, c, ptr)
			return []CallOut{{St: st, Val: mkNil()}}, true
		case c.is(p, "", "chunk.Wipe", "chunk.RandomWipe", "chunk.ZeroWipe"):
			e.wipeCell(st, c, fieldOf(c.Args[0], "encodedText"))
			if k := fieldOf(c.Args[0], "key"); k != nil {
				st.store(k, mkNil(), pointee(k))
			}
			return []CallOut{{St: st, Val: mkNil()}}, true
		case c.is(p, "", "Key.Wipe", "Key.RandomWipe", "Key.ZeroWipe", "Message.Wipe", "Message.RandomWipe", "Message.ZeroWipe", "Krypto431.Wipe", "Krypto431.Close"):
			ptr := c.Args[0]
			st.tag(mkTag("wipedObj", ptr))
			stt := structOf(ptr.typ)
			for i := 0; stt != nil && i < stt.NumFields(); i++ {
				f := mkField(ptr, pointee(ptr), i)
				if isSlice(stt.Field(i).Type()) {
					st.store(f, mkNil(), pointee(f))
				}
			}
			if c.Res != nil {
				return []CallOut{{St: st, Val: mkNil()}}, true
			}
			return []CallOut{{St: st, Val: mkTuple(nil)}}, true
		}
		return nil, false
	}
}

func (e *Engine) wipeCell(st *State, c *Call, ptr *Term) {
	if ptr == nil {
		return
	}
	for _, r := range e.load(e.curFr, st, ptr, pointee(ptr), c.Site, "wipe"+itoa(ptr.id)) {
		r.st.tag(mkTag("wiped", r.t))
	}
	st.tag(mkTag("wipedAt", ptr))
	st.store(ptr, mkNil(), pointee(ptr))
}
