package main

import (
	"go/token"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C27", Run: checkC27, Explain: "Abstract interpretation of the deletion of keys and messages, over all paths, and of the functions that take the ids from strings. Rules: an element is wiped only after its id was found equal to an id that was given; the list shrinks only by one element at a time, the wiped one, whose place was taken by the last (or by moving those behind it down); every id given was either removed or compared with every element; on return the length of the list and the number reported add up to the old length.",
		Assume: []string{"the wiping functions wipe (C09)", "ids are unique within a store (C03, C28)"}})
}

// ---- C27 ----

type delRun struct {
	c     *Ctx
	e     *Engine
	name  string // of the function
	list  string // field of the instance
	typ   string // of its elements
	fold  bool   // ids are compared without regard to letter case
	plain bool   // the elements are ids themselves, and are not wiped
	owner string // type with the list
	k     *Term
	ids   *Term
	lists map[*Term]bool // values the list took
}

// elemAddr: p is the address of an element of the list l.
func (r *delRun) elem(p *Term) bool {
	if r.plain {
		return p != nil && p.op == OIndex && isFieldOf(addrOf(p.args[0]), r.k, r.list) || r.plain && p != nil && p.op == OIndex && r.lists[p.args[0]]
	}
	return p != nil && p.op == OIndex && isModType(r.c.P, pointee(p), r.typ)
}

// isID: a is the address of the id of an element.
func (r *delRun) isID(a *Term) bool {
	if r.plain {
		return r.elem(a)
	}
	return fieldName(a) == r.typ+".Id"
}

// idAddr: a is the address of an element of the ids given.
func (r *delRun) idAddr(a *Term) bool { return a != nil && a.op == OIndex && a.args[0] == r.ids }

func (r *delRun) assume(e *Engine, st *State, cond *Term, v bool, in ssa.Instruction) {
	if cond.op == ONot {
		cond, v = cond.args[0], !v
	}
	if !isEqTerm(cond) {
		return
	}
	try := func(a, id *Term) {
		if !r.idAddr(id) || !r.isID(a) {
			return
		}
		if v && (r.fold || cond.name == "equal") {
			p := a
			if !r.plain {
				p = a.args[0]
			}
			st.tag(mkTag("named", p, id))
			if r.plain {
				for _, t := range tagsNamed(st.may, "pending") {
					setTag(st, t, false)
				}
				setTag(st, mkTag("pending", p, id), true)
			}
		}
		if !v && (!r.fold || cond.name == "equalFold") {
			st.tag(mkTag("ne", a, id))
		}
	}
	addrs := func(i int) (l []*Term) {
		if a := addrOf(cond.args[i]); a != nil {
			l = append(l, a)
		}
		for _, t := range tagsNamed(st.must, "from") {
			if t.args[0] == cond.args[i] {
				l = append(l, t.args[1])
			}
		}
		return
	}
	l0, l1 := addrs(0), addrs(1)
	for _, t := range tagsNamed(st.must, "cmp") {
		if t.args[0] == cond {
			l0, l1 = append(l0, t.args[1:]...), append(l1, t.args[1:]...)
		}
	}
	for _, a := range l0 {
		for _, b := range l1 {
			try(a, b)
			try(b, a)
		}
	}
}

// compared notes the addresses a comparison is about.
func (r *delRun) compared(e *Engine, st *State, cl *Call) ([]CallOut, bool) {
	outs, ok := modelEqual(r.c.P)(e, st, cl)
	if ok && len(cl.Args) == 2 {
		for _, o := range outs {
			if o.Val != nil && isEqTerm(o.Val) {
				o.St.tag(mkTag("cmp", o.Val, r.origin(e, o.St, cl.Args[0]), r.origin(e, o.St, cl.Args[1])))
			}
		}
	}
	return outs, ok
}

// origin: the address the value of the variable at p was read from.
func (r *delRun) origin(e *Engine, st *State, p *Term) *Term {
	if p.op == OAlloc {
		v := e.readAt(st, p)
		if a := addrOf(v); a != nil {
			return a
		}
		for _, t := range tagsNamed(st.must, "from") {
			if t.args[0] == v {
				return t.args[1]
			}
		}
	}
	return p
}

// addrOf is the address a value was read from, or nil.
func addrOf(v *Term) *Term {
	if v != nil && v.op == OInit {
		return v.args[0]
	}
	return nil
}

// notThere: the id at address id was compared with every element of the list l.
func (r *delRun) notThere(st *State, id, l *Term) bool {
	if st.truth(mkEqInt(mkLen(l), mkInt(0))) == 1 {
		return true
	}
	for _, t := range tagsNamed(st.must, "ne") {
		ix := t.args[0]
		if !r.plain {
			ix = ix.args[0]
		}
		if t.args[1] == id && ix.op == OIndex && ix.args[0] == l && ix.args[1].isWhole() {
			return true
		}
	}
	return false
}

func (r *delRun) run() {
	c := r.c
	if r.owner == "" {
		r.owner = "Krypto431"
	}
	r.lists = map[*Term]bool{}
	fn := c.fn("", r.owner+"."+r.name)
	if fn == nil || len(fn.Params) != 2 {
		return
	}
	cell := func() *Term { return fieldOf(r.k, r.list) }
	handled := func(e *Engine, st *State) {
		cur := e.readAt(st, cell())
		for _, t := range tagsNamed(st.must, "ne") {
			if id := t.args[1]; cur != nil && r.notThere(st, id, cur) {
				st.tag(mkTag("handled", id))
			}
		}
	}
	e := c.NewEngine(Hooks{
		EssTag: func(t *Term) bool { return t.name == "pending" },
		Assume: r.assume,
		Load: func(e *Engine, st *State, addr, val *Term, in ssa.Instruction) {
			if isFieldOf(addr, r.k, r.list) {
				r.lists[val] = true
			}
			if r.idAddr(addr) || r.isID(addr) {
				st.tag(mkTag("from", val, addr))
			}
		},
		Call: chain(func(e *Engine, st *State, cl *Call) ([]CallOut, bool) {
			if !cl.is(c.P, "", r.typ+".Wipe", r.typ+".RandomWipe", r.typ+".ZeroWipe") {
				return nil, false
			}
			p := cl.Args[0]
			var id *Term
			for _, t := range tagsNamed(st.must, "named") {
				if t.args[0] == p {
					id = t.args[1]
				}
			}
			if c.Ob(r.elem(p) && id != nil, "wipes-named", r.name, cl.Pos, "%s may wipe %s, whose id is not known to be one of those given", r.name, p) {
				setTag(st, mkTag("pending", p, id), true)
			}
			return nil, false
		}, modelWipe(c.P), r.compared),
		Store: func(e *Engine, st *State, addr, val *Term, in ssa.Instruction) {
			cur := e.readAt(st, cell())
			if r.plain {
				if r.elem(addr) {
					ok := false
					for _, t := range tagsNamed(st.must, "pending") {
						ok = ok || t.args[0] == addr
					}
					c.Ob(ok, "wipes-named", r.name, in.Pos(), "%s may overwrite an element that was not given", r.name)
				} else if addr.op != OAlloc && !isVarargs(rootOf(addr)) {
					c.Ob(isFieldOf(addr, r.k, r.list), "wipes-named", r.name+" other", in.Pos(), "%s may change something else (%s)", r.name, addr)
				}
			}
			if r.elem(addr) && cur != nil {
				// an element is overwritten: only the wiped one, by the last
				last := mkIndex(cur, linAdd(mkLen(cur), mkInt(-1)), pointee(addr))
				for _, t := range tagsNamed(st.must, "pending") {
					if t.args[0] == addr && e.holds(st, last, val) {
						st.tag(mkTag("moved", addr))
					}
				}
				return
			}
			if !isFieldOf(addr, r.k, r.list) {
				return
			}
			ok := false
			for _, t := range tagsNamed(st.must, "pending") {
				p := t.args[0]
				isLast := r.elem(p) && p.args[0] == cur && st.truth(mkEqInt(p.args[1], linAdd(mkLen(cur), mkInt(-1)))) == 1
				if !st.hasTag(mkTag("moved", p)) && !isLast && !st.hasTag(mkTag("closed", val, p)) {
					continue
				}
				if st.hasTag(mkTag("closed", val, p)) || val.op == OSlice && val.args[0] == cur && (val.args[1].isNil() || st.truth(mkEqInt(val.args[1], mkInt(0))) == 1) && st.truth(mkEqInt(val.args[2], linAdd(mkLen(cur), mkInt(-1)))) == 1 {
					ok = true
					setTag(st, t, false)
					st.tag(mkTag("handled", t.args[1]))
				}
			}
			c.Ob(ok, "removes-one", r.name, in.Pos(), "%s may make %s something else than the list without the one wiped element (%s)", r.name, r.list, val)
		},
		Append: func(e *Engine, st *State, base *Term, elems []*Term, spread, res *Term, in ssa.Instruction) {
			// append(l[:i], l[i+1:]...)
			if spread == nil || res == nil || base.op != OSlice || spread.op != OSlice || base.args[0] != spread.args[0] {
				return
			}
			for _, t := range tagsNamed(st.must, "pending") {
				p := t.args[0]
				if p.op == OIndex && p.args[0] == base.args[0] && !base.args[2].isNil() && st.truth(mkEqInt(base.args[2], p.args[1])) == 1 &&
					st.truth(mkEqInt(spread.args[1], linAdd(p.args[1], mkInt(1)))) == 1 && (spread.args[2].isNil() || st.truth(mkEqInt(spread.args[2], mkLen(base.args[0]))) == 1) {
					st.tag(mkTag("closed", res, p))
				}
			}
		},
		Back: func(e *Engine, st *State) { handled(e, st) },
		Return: func(e *Engine, st *State, f *ssa.Function, depth int, vals []*Term, pos token.Pos) {
			if depth != 0 || succeeds(st, f, vals) != 1 && !r.plain {
				return
			}
			handled(e, st)
			old := entryOf(cell())
			cur := e.readAt(st, cell())
			c.Ob(len(tagsNamed(st.may, "pending")) == 0, "removes-one", r.name+" left", pos, "%s may leave a wiped element in the list", r.name)
			all := st.truth(mkEqInt(mkLen(r.ids), mkInt(0))) == 1
			for _, t := range tagsNamed(st.must, "handled") {
				ix := t.args[0]
				all = all || ix != nil && ix.op == OIndex && ix.args[0] == r.ids && ix.args[1].isWhole()
			}
			c.Ob(all, "every-id", r.name, pos, "%s may return without having removed, or not found, every id given", r.name)
			if r.plain {
				return
			}
			c.Ob(cur != nil && st.truth(mkEqInt(linAdd(mkLen(cur), vals[0]), mkLen(old))) == 1, "count", r.name, pos, "%s may report another number than it has removed (%s)", r.name, vals[0])
		},
	})
	e.sums = true
	e.Run(fn, func(st *State, args []*Term) { r.k, r.ids = args[0], args[1] })
}

// byString: the functions that take the ids from strings.
func (r *delRun) byString() {
	c := r.c
	vet := "VettedKeys"
	if r.typ == "Message" {
		vet = "VettedMessageIds"
	}
	byStr := r.name + "ByString"
	bySum := r.name + "sBySummaryString"
	for _, name := range []string{byStr, bySum} {
		fn := c.fn("", "Krypto431."+name)
		if fn == nil || len(fn.Params) != 2 {
			continue
		}
		var k, list *Term
		// given: x is (all of) the strings, or one of them
		source := func(st *State, x *Term) *Term {
			for i := 0; i < 6 && x != nil; i++ {
				for x.op == OIface && len(x.args) == 1 {
					x = x.args[0]
				}
				if x == list {
					return x
				}
				if a := addrOf(x); a != nil && a.op == OIndex && a.args[0] == list {
					return a
				}
				var n *Term
				for _, t := range tagsNamed(st.must, "of") {
					if t.args[0] == x {
						n = t.args[1]
					}
				}
				if ct := st.cont[x]; n == nil && ct != nil && ct.base == nil && len(ct.elems) == 1 {
					n = ct.elems[0]
				}
				if n == nil && x.op == OSlice && isVarargs(x.args[0]) && arrayLen(x.args[0].typ) == 1 {
					n = r.e.readAt(st, mkIndex(x.args[0], mkInt(0), elemType(x.typ)))
				}
				x = n
			}
			return nil
		}
		e := c.NewEngine(Hooks{
			Ess: essAll,
			Call: func(e *Engine, st *State, cl *Call) ([]CallOut, bool) {
				switch {
				case cl.is(c.P, "", vet, "VettedKeepers") && (vet == "VettedKeys" || cl.is(c.P, "", vet)):
					v := e.Result(cl)
					if s := source(st, cl.Args[0]); s != nil {
						st.tag(mkTag("of", v, cl.Args[0]))
						st.tag(mkTag("vetted", v))
					}
					return []CallOut{{St: st, Val: v}}, true
				case cl.std("strings.Cut"):
					res := e.Result(cl)
					if sep, ok := cl.Args[1].strVal(); ok && sep == " " {
						st.tag(mkTag("of", resList(res)[0], cl.Args[0]))
						st.tag(mkTag("first", resList(res)[0]))
					}
					return []CallOut{{St: st, Val: res}}, true
				case cl.is(c.P, "", "Krypto431."+r.name), cl.is(c.P, "", "Krypto431."+byStr) && name == bySum:
					a := cl.Args[1]
					s := source(st, a)
					ok := cl.Args[0] == k && s != nil
					if cl.is(c.P, "", "Krypto431."+r.name) {
						ok = ok && st.hasTag(mkTag("vetted", a))
					}
					if name == bySum {
						ok = ok && s != list
					} else {
						ok = ok && s == list
					}
					c.Ob(ok, "by-string", name, cl.Pos, "%s may delete something else than what the strings name (%s)", name, a)
					return fallible(e, st, cl, func(st *State, res []*Term) {
						if s != nil {
							st.tag(mkTag("did", s))
						}
						st.tag(mkTag("number", res[0]))
					}, nil), true
				}
				return nil, false
			},
			Return: func(e *Engine, st *State, f *ssa.Function, depth int, vals []*Term, pos token.Pos) {
				if depth != 0 || succeeds(st, f, vals) == -1 {
					return
				}
				all := st.truth(mkEqInt(mkLen(list), mkInt(0))) == 1
				for _, t := range tagsNamed(st.must, "did") {
					x := t.args[0]
					all = all || x == list || x != nil && x.op == OIndex && x.args[1].isWhole() && x.args[0] == list
				}
				c.Ob(all, "by-string", name+" all", pos, "%s may return without having deleted what every string names", name)
				if name == byStr {
					c.Ob(st.hasTag(mkTag("number", vals[0])) || st.truth(mkEqInt(mkLen(list), mkInt(0))) == 1, "by-string", name+" number", pos, "%s may report another number than was removed", name)
				}
			},
		})
		r.e = e
		e.Run(fn, func(st *State, args []*Term) { k, list = args[0], args[1] })
	}
}

// keeperFns: RemoveKeeper removes the call-signs given from the list, and
// nothing else; AddKeeper adds those that are not there.
func (c *Ctx) keeperFns() {
	(&delRun{c: c, name: "RemoveKeeper", list: "Keepers", owner: "Key", plain: true, fold: true}).run()
	fn := c.fn("", "Key.AddKeeper")
	if fn == nil || len(fn.Params) != 2 {
		return
	}
	var k, ids *Term
	one := func(e *Engine, st *State, l *Term) *Term {
		if l != nil && l.op == OSlice && isVarargs(l.args[0]) && arrayLen(l.args[0].typ) == 1 {
			return e.readAt(st, mkIndex(l.args[0], mkInt(0), elemType(l.typ)))
		}
		return nil
	}
	given := func(v *Term) *Term {
		if a := addrOf(v); a != nil && a.op == OIndex && a.args[0] == ids {
			return a
		}
		return nil
	}
	e := c.NewEngine(Hooks{
		Call: func(e *Engine, st *State, cl *Call) ([]CallOut, bool) {
			if !cl.is(c.P, "", "Key.ContainsKeeper") {
				return nil, false
			}
			no := st.clone()
			if a := given(one(e, st, cl.Args[1])); a != nil && cl.Args[0] == k {
				st.tag(mkTag("in", a))
			}
			return []CallOut{{St: st, Val: mkBool(true)}, {St: no, Val: mkBool(false)}}, true
		},
		Append: func(e *Engine, st *State, base *Term, elems []*Term, spread, res *Term, in ssa.Instruction) {
			if res == nil || base != e.readAt(st, fieldOf(k, "Keepers")) || spread != nil || len(elems) != 1 {
				return
			}
			s, _ := copyOf(st, elems[0])
			if a := given(s); a != nil {
				st.tag(mkTag("added", res, a))
			}
		},
		Store: func(e *Engine, st *State, addr, val *Term, in ssa.Instruction) {
			if addr.op == OAlloc || isVarargs(rootOf(addr)) {
				return
			}
			ok := false
			for _, t := range tagsNamed(st.must, "added") {
				if t.args[0] == val && isFieldOf(addr, k, "Keepers") {
					st.tag(mkTag("in", t.args[1]))
					ok = true
				}
			}
			c.Ob(ok, "adds", "AddKeeper", in.Pos(), "AddKeeper may change something else than the list of keepers, or add something else than what was given (%s)", addr)
		},
		Return: func(e *Engine, st *State, f *ssa.Function, depth int, vals []*Term, pos token.Pos) {
			if depth != 0 {
				return
			}
			all := isZeroLen(st, ids)
			for _, t := range tagsNamed(st.must, "in") {
				all = all || t.args[0].args[0] == ids && t.args[0].args[1].isWhole()
			}
			c.Ob(all && vals[0] == k, "adds", "AddKeeper all", pos, "AddKeeper may leave out a call-sign")
		},
	})
	e.Run(fn, func(st *State, args []*Term) { k, ids = args[0], args[1] })
	c.Need("adds", 2)
}

func checkC27(c *Ctx) {
	for _, r := range []*delRun{
		{c: c, name: "DeleteKey", list: "Keys", typ: "Key", fold: true},
		{c: c, name: "DeleteMessage", list: "Messages", typ: "Message"},
	} {
		r.run()
		r.byString()
	}
	c.Need("wipes-named", 2)
	c.Need("removes-one", 4)
	c.Need("every-id", 2)
	c.Need("count", 2)
	c.Need("by-string", 8)
	checkEqualFns(c)
}
