package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C21", Run: checkC21, Explain: "Abstract interpretation of ExportKeys and ImportKeys over all paths, with the filter answering both ways, the questions answered both ways or failing, and options that set anything but the lists. Rules: every key added to the exported store is field by field a copy, in fresh memory, of a selected key, nothing else is stored, and every key was either refused by the filter or copied; a key is imported only when selected, of the right id length and not (any longer) in the store, as a complete copy with the own call-sign removed from and that of the sender added to the keepers; a key of the store is deleted only when it has the id of the selected one and replacing was allowed for it; the number returned equals the number of additions.",
		Assume: []string{"DeleteKey deletes what it is given (C27)", "Load fills the store (C13)", "RemoveKeeper and AddKeeper remove and add a call-sign", "the filter function does not change keys"}})
}

// ---- C21 ----

// xfer follows keys that are copied from one list to another.
type xfer struct {
	c      *Ctx
	name   string
	k      *Term // the receiver
	filter *Term
}

func (r *xfer) keyElem(a *Term) bool {
	return a != nil && a.op == OIndex && isModType(r.c.P, pointee(a), "Key")
}

// original: the element of a list the key in the variable at p is a copy of.
func (r *xfer) original(e *Engine, st *State, p *Term) *Term {
	if r.keyElem(p) || !isModType(r.c.P, pointee(p), "Key") {
		return nil
	}
	t := pointee(p)
	stt := t.Underlying().(*types.Struct)
	var src *Term
	for i := 0; i < stt.NumFields(); i++ {
		f := mkField(p, t, i)
		v := e.readAt(st, f)
		if a := addrOf(v); stt.Field(i).Name() == "Id" && a != nil && fieldName(a) == "Key.Id" && r.keyElem(a.args[0]) {
			src = a.args[0]
		}
	}
	for i := 0; src != nil && i < stt.NumFields(); i++ {
		f := mkField(p, t, i)
		v := e.readAt(st, f)
		if v == nil && decomposable(pointee(f)) {
			v = e.peek(st, f, pointee(f))
		}
		if v == nil || !e.holds(st, mkField(src, t, i), v) {
			return nil
		}
	}
	return src
}

// chosen: the filter function, for which both answers are followed.
func (r *xfer) chosen(e *Engine, st *State, cl *Call) ([]CallOut, bool) {
	if cl.FnT != r.filter {
		return nil, false
	}
	a := cl.Args[0]
	if src := r.original(e, st, a); src != nil {
		a = src
	}
	r.c.Ob(r.keyElem(a), "asks", r.name, cl.Pos, "%s may ask the filter about something else than a key of the list (%s)", r.name, a)
	no := st.clone()
	st.tag(mkTag("sel", a))
	no.tag(mkTag("notsel", a))
	no.tag(mkTag("treated", a))
	return []CallOut{{St: st, Val: mkBool(true)}, {St: no, Val: mkBool(false)}}, true
}

// keeper notes that a copy of an element of a key's list of keepers was added
// to another list.
func (r *xfer) keeper(e *Engine, st *State, base *Term, elems []*Term, spread, res *Term, in ssa.Instruction) {
	if res == nil || spread != nil || len(elems) != 1 || !isSlice(elemType(res.typ)) {
		return
	}
	s, n := copyOf(st, elems[0])
	if a := addrOf(s); n > 0 && a != nil {
		st.tag(mkTag("kept", a))
	}
}

// place is the same for a list that is filled by assigning its elements.
func (r *xfer) place(e *Engine, st *State, addr, val *Term) bool {
	if addr.op != OIndex || addr.args[0].op != OMake || !isSlice(pointee(addr)) {
		return false
	}
	v := addr.args[0]
	s, n := copyOf(st, val)
	if a := addrOf(s); n > 0 && a != nil && a.op == OIndex && st.truth(mkEqInt(a.args[1], addr.args[1])) == 1 {
		st.tag(mkTag("placed", v, a))
	} else {
		st.may[mkTag("misplaced", v)] = true
	}
	return true
}

// keepersOf: v is a list of copies of all the keepers of the key at src.
func (r *xfer) keepersOf(e *Engine, st *State, v, src *Term) bool {
	l := e.readAt(st, fieldOf(src, "Keepers"))
	if l == nil || v == nil {
		return false
	}
	if isZeroLen(st, l) {
		return isZeroLen(st, v) || isNilT(st, v) == 1
	}
	for _, t := range tagsNamed(st.must, "placed") {
		if a := t.args[1]; t.args[0] == v && a.args[0] == l && a.args[1].isWhole() && !st.mayTag(mkTag("misplaced", v)) && st.truth(mkEqInt(mkLen(v), mkLen(l))) == 1 {
			return true
		}
	}
	all := false
	for _, t := range tagsNamed(st.must, "kept") {
		if a := t.args[0]; a.op == OIndex && a.args[0] == l && a.args[1].isWhole() {
			all = true
		}
	}
	if !all {
		return false
	}
	ct := st.cont[v]
	if v.isNil() {
		return true
	}
	if ct == nil || ct.base != nil || !ct.closed {
		return false
	}
	for _, x := range ct.elems {
		s, n := copyOf(st, x)
		if a := addrOf(s); n == 0 || a == nil || a.op != OIndex || a.args[0] != l {
			return false
		}
	}
	return true
}

// copied: the key v has the contents of the key at src, in memory of its own.
func (r *xfer) copied(e *Engine, st *State, src, v *Term, keepers bool) string {
	t := pointee(src)
	stt := t.Underlying().(*types.Struct)
	for i := 0; i < stt.NumFields(); i++ {
		f := stt.Field(i)
		x := mkFieldVal(v, t, i)
		if f.Name() == "instance" {
			continue
		}
		if f.Name() == "Keepers" {
			if keepers && !r.keepersOf(e, st, x, src) {
				return f.Name()
			}
			continue
		}
		if !e.holds(st, mkField(src, t, i), x) {
			return f.Name()
		}
		if isSlice(f.Type()) {
			if _, n := copyOf(st, x); n == 0 {
				return f.Name()
			}
		}
	}
	return ""
}

// option: the options given to a function only change its settings (checked by
// options).
func (r *xfer) option(e *Engine, st *State, cl *Call) ([]CallOut, bool) {
	if cl.Name != "dynamic" || len(cl.Args) != 1 || cl.Res != nil || !isModType(r.c.P, pointee(cl.Args[0]), "Krypto431") {
		return nil, false
	}
	keep := map[*Term]*Term{}
	for _, n := range []string{"Keys", "Messages"} {
		f := fieldOf(cl.Args[0], n)
		keep[f] = e.readAt(st, f)
	}
	e.effects(st, cl)
	for f, v := range keep {
		if v != nil {
			st.know(f, v)
		}
	}
	return []CallOut{{St: st, Val: mkTuple(nil)}}, true
}

func (r *xfer) options() {
	c := r.c
	for _, field := range []string{"Keys", "Messages"} {
		writers, _ := c.P.fieldWriters("", "Krypto431", field)
		for f := range writers {
			for g := f; g != nil; g = g.Parent() {
				if res := g.Signature.Results(); res.Len() == 1 && isModType(c.P, res.At(0).Type(), "Option") {
					c.Ob(false, "options", f.Name(), f.Pos(), "the option %s changes the list of %s", g.Name(), field)
				}
			}
		}
	}
}

// isKeys: a list of keys.
func (r *xfer) isKeys(t *Term) bool {
	return t != nil && isSlice(t.typ) && elemType(t.typ) != nil && isModType(r.c.P, elemType(t.typ), "Key")
}

// ofList: an address within an element of a list of keys that is not the
// argument list of a call.
func (r *xfer) inList(a *Term) (*Term, bool) {
	for a != nil {
		if r.keyElem(a) {
			return a, !isVarargs(rootOf(a))
		}
		if a.op != OField && a.op != OIndex || len(a.args) == 0 {
			break
		}
		a = a.args[0]
	}
	return nil, false
}

func (r *xfer) export() {
	c := r.c
	r.name = "ExportKeys"
	fn := c.fn("", "Krypto431."+r.name)
	if fn == nil || len(fn.Params) != 3 {
		return
	}
	e := c.NewEngine(Hooks{
		Call: chain(r.chosen, r.option, modelClone),
		Copy: copyHook,
		Append: func(e *Engine, st *State, base *Term, elems []*Term, spread, res *Term, in ssa.Instruction) {
			appendCopyHook(e, st, base, elems, spread, res, in)
			r.keeper(e, st, base, elems, spread, res, in)
			if !r.isKeys(res) {
				return
			}
			if !c.Ob(spread == nil && len(elems) == 1, "exports", r.name+" one", in.Pos(), "%s may add several keys at once", r.name) {
				return
			}
			ok, why := false, "nothing that was selected"
			for _, t := range tagsNamed(st.must, "sel") {
				src := t.args[0]
				if !r.keyElem(src) || src.args[0] != entryOf(fieldOf(r.k, "Keys")) || hasAged(src) || st.mayTag(mkTag("treated", src)) {
					continue
				}
				if why = r.copied(e, st, src, elems[0], true); why == "" {
					ok = true
					st.tag(mkTag("treated", src))
				}
			}
			c.Ob(ok, "exports", r.name, in.Pos(), "%s may export a key that is not a complete copy, in memory of its own, of a selected one (%s)", r.name, why)
		},
		Store: func(e *Engine, st *State, addr, val *Term, in ssa.Instruction) {
			if r.place(e, st, addr, val) || r.keyElem(addr) && rootOf(addr) != nil && isVarargs(rootOf(addr)) {
				return
			}
			_, l := r.inList(addr)
			c.Ob(rootOf(addr) != r.k && !l, "unchanged", r.name, in.Pos(), "%s may change the key store it exports from, or a key it has exported (%s)", r.name, addr)
		},
		Return: func(e *Engine, st *State, f *ssa.Function, depth int, vals []*Term, pos token.Pos) {
			if depth != 0 {
				return
			}
			v := vals[0]
			get := func(name string) *Term {
				t := v.typ
				if p, ok := t.Underlying().(*types.Pointer); ok {
					t = p.Elem()
					return e.readAt(st, fieldOf(v, name))
				}
				stt := t.Underlying().(*types.Struct)
				for i := 0; i < stt.NumFields(); i++ {
					if stt.Field(i).Name() == name {
						return mkFieldVal(v, t, i)
					}
				}
				return nil
			}
			l, m := get("Keys"), get("Messages")
			ct := st.cont[l]
			c.Ob(l != nil && (isZeroLen(st, l) || ct != nil && ct.closed && ct.base == nil), "exports", r.name+" only", pos, "%s may return other keys than those it has copied", r.name)
			c.Ob(m != nil && isZeroLen(st, m), "exports", r.name+" messages", pos, "%s may hand out messages", r.name)
			c.Ob(r.allTreated(st, entryOf(fieldOf(r.k, "Keys"))), "every-key", r.name, pos, "%s may pass over a selected key", r.name)
		},
	})
	e.Run(fn, func(st *State, args []*Term) { r.k, r.filter = args[0], args[1] })
}

func (r *xfer) allTreated(st *State, l *Term) bool {
	if l == nil {
		return false
	}
	if isZeroLen(st, l) {
		return true
	}
	for _, t := range tagsNamed(st.must, "treated") {
		if a := t.args[0]; r.keyElem(a) && a.args[0] == l && a.args[1].isWhole() {
			return true
		}
	}
	return false
}

func (r *xfer) imports() {
	c := r.c
	r.name = "ImportKeys"
	fn := c.fn("", "Krypto431."+r.name)
	if fn == nil || len(fn.Params) != 3 {
		return
	}
	ghost := intern(OGlobal, "ghost:keys imported", types.NewPointer(tInt))
	loaded := func(st *State) *Term {
		for _, t := range tagsNamed(st.must, "loaded") {
			return t.args[0]
		}
		return nil
	}
	// src is the incoming key whose id the variable at p holds
	srcOf := func(e *Engine, st *State, p, v *Term) *Term {
		if fieldName(p) == "Key.Id" && r.keyElem(p.args[0]) {
			return p.args[0]
		}
		if v == nil && p != nil {
			v = e.readAt(st, p)
		}
		if v == nil {
			return nil
		}
		v, _ = copyOf(st, v)
		if a := addrOf(v); fieldName(a) == "Key.Id" && r.keyElem(a.args[0]) {
			return a.args[0]
		}
		return nil
	}
	flag := func(e *Engine, st *State, name string) int {
		v := e.readAt(st, fieldOf(r.k, name))
		if v == nil {
			return 0
		}
		return st.truth(v)
	}
	allowed := func(e *Engine, st *State, src *Term) bool {
		if flag(e, st, "overwriteExistingKeysOnImport") == 1 {
			return true
		}
		for _, t := range tagsNamed(st.must, "asked") {
			if t.args[1] == src && st.truth(t.args[0]) == 1 {
				return true
			}
		}
		return false
	}
	refused := func(e *Engine, st *State, src *Term) bool {
		if flag(e, st, "overwriteExistingKeysOnImport") != -1 {
			return false
		}
		if flag(e, st, "interactive") == -1 {
			return true
		}
		for _, t := range tagsNamed(st.must, "terminal") {
			if st.truth(t.args[0]) == -1 && !hasAged(t) {
				return true
			}
		}
		for _, t := range tagsNamed(st.must, "asked") {
			if t.args[1] == src && st.truth(t.args[0]) == -1 {
				return true
			}
		}
		return false
	}
	e := c.NewEngine(Hooks{
		Ess:  essAll,
		Copy: copyHook,
		Load: func(e *Engine, st *State, addr, val *Term, in ssa.Instruction) {
			if fieldName(addr) == "Key.Id" && r.keyElem(addr.args[0]) {
				st.tag(mkTag("seen", addr.args[0]))
			}
		},
		Call: chain(r.chosen, r.option, modelWipe(c.P), modelClone, func(e *Engine, st *State, cl *Call) ([]CallOut, bool) {
			switch {
			case cl.is(c.P, "", "Krypto431.Load"):
				c.Ob(cl.Args[0] != r.k, "imports", "load", cl.Pos, "%s may load into the receiving store", r.name)
				return fallible(e, st, cl, func(st *State, res []*Term) {
					f := fieldOf(cl.Args[0], "Keys")
					l := e.newSym(e.curFr, OSym, cl.Site, "keys", pointee(f), &SymInfo{Kind: "call", What: "the incoming keys"})
					st.store(f, l, pointee(f))
					f = fieldOf(cl.Args[0], "CallSign")
					cs := e.newSym(e.curFr, OSym, cl.Site, "sign", pointee(f), &SymInfo{Kind: "call", What: "the incoming call-sign"})
					st.store(f, cs, pointee(f))
					st.tag(mkTag("loaded", l))
					st.tag(mkTag("theirs", cs))
				}, nil), true
			case cl.is(c.P, "", "Krypto431.ContainsKeyId"):
				src := srcOf(e, st, cl.Args[1], nil)
				c.Ob(src != nil && cl.Args[0] == r.k, "imports", "looks", cl.Pos, "%s may look for another id than that of the incoming key, or in another store", r.name)
				no := st.clone()
				if src != nil {
					setTag(st, mkTag("absent", src), false)
					st.tag(mkTag("exists", src))
					no.tag(mkTag("absent", src))
				}
				return []CallOut{{St: st, Val: mkBool(true)}, {St: no, Val: mkBool(false)}}, true
			case cl.is(c.P, "", "IsTerminal"):
				v := e.Result(cl)
				st.tag(mkTag("terminal", v))
				return []CallOut{{St: st, Val: v}}, true
			case cl.survey():
				return fallible(e, st, cl, func(st *State, res []*Term) {
					p := unwrap(cl.Args[1])
					if t := pointee(p); t != nil {
						v := e.newSym(e.curFr, OSym, cl.Site, "answer", t, &SymInfo{Kind: "call", What: "the answer of the user"})
						st.store(p, v, t)
						if q := unwrap(cl.Args[0]); q != nil && strings.HasSuffix(typeName(pointee(q)), "survey/v2.Confirm") {
							for _, t := range tagsNamed(st.must, "exists") {
								if !hasAged(t) {
									st.tag(mkTag("asked", v, t.args[0]))
								}
							}
						}
					}
				}, nil), true
			case cl.is(c.P, "", "Krypto431.DeleteKey"):
				var src *Term
				if l := cl.Args[1]; l != nil && l.op == OSlice && isVarargs(l.args[0]) && arrayLen(l.args[0].typ) == 1 {
					src = srcOf(e, st, nil, e.readAt(st, mkIndex(l.args[0], mkInt(0), elemType(l.typ))))
				}
				ok := cl.Args[0] == r.k && src != nil && st.hasTag(mkTag("exists", src))
				c.Ob(ok && st.hasTag(mkTag("sel", src)), "replaces", "id", cl.Pos, "%s may delete another key than the one to be replaced", r.name)
				c.Ob(ok && allowed(e, st, src), "replaces", "permission", cl.Pos, "%s may delete a key although replacing it was not allowed", r.name)
				// it changes the list of the receiving store only (C27)
				f := fieldOf(r.k, "Keys")
				l := e.newSym(e.curFr, OSym, cl.Site, "left", pointee(f), &SymInfo{Kind: "call", What: "the keys left"})
				st.store(f, l, pointee(f))
				return fallible(e, st, cl, func(st *State, res []*Term) {
					if src != nil {
						st.tag(mkTag("absent", src))
					}
				}, nil), true
			case cl.is(c.P, "", "Key.RemoveKeeper", "Key.AddKeeper"):
				f := fieldOf(cl.Args[0], "Keepers")
				var arg *Term
				if l := cl.Args[1]; l != nil && l.op == OSlice && isVarargs(l.args[0]) && arrayLen(l.args[0].typ) == 1 {
					arg = e.readAt(st, mkIndex(l.args[0], mkInt(0), elemType(l.typ)))
				}
				if f != nil && arg != nil {
					old := e.readAt(st, f)
					v := e.newSym(e.curFr, OSym, cl.Site, "keepers", pointee(f), &SymInfo{Kind: "call", What: "the changed keepers"})
					st.store(f, v, pointee(f))
					n := "without"
					if cl.is(c.P, "", "Key.AddKeeper") {
						n = "with"
					}
					if old != nil {
						st.tag(mkTag(n, v, old, arg))
					}
				}
				return []CallOut{{St: st, Val: cl.Args[0]}}, true
			}
			return nil, false
		}),
		Append: func(e *Engine, st *State, base *Term, elems []*Term, spread, res *Term, in ssa.Instruction) {
			appendCopyHook(e, st, base, elems, spread, res, in)
			r.keeper(e, st, base, elems, spread, res, in)
			if !r.isKeys(res) {
				return
			}
			cur := e.readAt(st, fieldOf(r.k, "Keys"))
			if !c.Ob(spread == nil && len(elems) == 1 && base == cur && cur != nil, "imports", "one", in.Pos(), "%s may change the list otherwise than by adding one key", r.name) {
				return
			}
			why := "nothing that was selected"
			for _, t := range tagsNamed(st.must, "sel") {
				src := t.args[0]
				if !r.keyElem(src) || src.args[0] != loaded(st) || hasAged(src) {
					continue
				}
				id := e.readAt(st, fieldOf(src, "Id"))
				gs := e.readAt(st, fieldOf(r.k, "GroupSize"))
				own := e.readAt(st, fieldOf(r.k, "CallSign"))
				v, t := elems[0], pointee(src)
				switch {
				case id == nil || gs == nil || st.truth(mkEqInt(mkLen(id), gs)) != 1:
					why = "the id may have another length than the group size"
				case st.mayTag(mkTag("treated", src)):
					why = "it may be added twice"
				case !st.hasTag(mkTag("absent", src)):
					why = "there may be a key with this id"
				default:
					if why = r.copied(e, st, src, v, false); why != "" {
						why = why + " is not a copy"
						break
					}
					stt := t.Underlying().(*types.Struct)
					for i := 0; i < stt.NumFields(); i++ {
						x := mkFieldVal(v, t, i)
						switch stt.Field(i).Name() {
						case "instance":
							if x != r.k {
								why = "it does not belong to the receiving store"
							}
						case "Keepers":
							without, with := false, false
						chain:
							for n := 0; n < 4; n++ {
								for _, w := range append(tagsNamed(st.must, "without"), tagsNamed(st.must, "with")...) {
									if w.args[0] != x {
										continue
									}
									s, n := copyOf(st, w.args[2])
									if w.name == "without" && (s == own || w.args[2] == own) {
										without = true
									} else if w.name == "with" && n > 0 && st.hasTag(mkTag("theirs", s)) {
										with = true
									} else {
										why = "another call-sign is added or removed"
									}
									x = w.args[1]
									continue chain
								}
								break
							}
							switch {
							case !without:
								why = "the own call-sign may stay among the keepers"
							case !with:
								why = "the sender may not be among the keepers"
							case !r.keepersOf(e, st, x, src):
								why = "the keepers are not copied"
							}
						}
					}
				}
				if why == "" {
					st.tag(mkTag("treated", src))
					st.tag(mkTag("result", res))
					if n := e.readAt(st, ghost); n != nil {
						st.store(ghost, linAdd(n, mkInt(1)), tInt)
					}
					return
				}
			}
			c.Ob(false, "imports", "copy", in.Pos(), "%s may add a key wrongly: %s", r.name, why)
		},
		Store: func(e *Engine, st *State, addr, val *Term, in ssa.Instruction) {
			if r.place(e, st, addr, val) {
				return
			}
			if isFieldOf(addr, r.k, "Keys") {
				c.Ob(st.hasTag(mkTag("result", val)), "imports", "list", in.Pos(), "%s may change the list of keys otherwise than by adding one key", r.name)
				return
			}
			_, l := r.inList(addr)
			c.Ob(rootOf(addr) != r.k && !l, "unchanged", r.name, in.Pos(), "%s may change something else in the receiving store (%s)", r.name, addr)
		},
		Back: func(e *Engine, st *State) {
			gs := e.readAt(st, fieldOf(r.k, "GroupSize"))
			for _, t := range tagsNamed(st.must, "seen") {
				src := t.args[0]
				id := e.readAt(st, fieldOf(src, "Id"))
				if id != nil && gs != nil && st.truth(mkEqInt(mkLen(id), gs)) == -1 {
					st.tag(mkTag("treated", src))
				}
			}
			for _, t := range tagsNamed(st.must, "exists") {
				if src := t.args[0]; st.hasTag(mkTag("sel", src)) && refused(e, st, src) {
					st.tag(mkTag("treated", src))
				}
			}
		},
		Return: func(e *Engine, st *State, f *ssa.Function, depth int, vals []*Term, pos token.Pos) {
			if depth != 0 {
				return
			}
			n := e.readAt(st, ghost)
			c.Ob(n != nil && st.truth(mkEqInt(n, vals[0])) == 1, "count", r.name, pos, "%s may report another number than that of the keys it has added (%s)", r.name, vals[0])
			if succeeds(st, f, vals) == -1 {
				return
			}
			c.Ob(r.allTreated(st, loaded(st)), "every-key", r.name, pos, "%s may report success although it passed over a selected key", r.name)
		},
	})
	e.Run(fn, func(st *State, args []*Term) {
		r.k, r.filter = args[0], args[1]
		st.heap[ghost] = mkInt(0)
	})
}

// survey: a question to the user.
func (c *Call) survey() bool {
	return strings.Contains(c.Name, "survey") && strings.HasSuffix(c.Name, ".AskOne")
}

func checkC21(c *Ctx) {
	(&xfer{c: c}).export()
	(&xfer{c: c}).imports()
	(&xfer{c: c}).options()
	c.keeperFns()
	for ru, n := range map[string]int{"asks": 2, "exports": 4, "unchanged": 2, "every-key": 2, "imports": 5, "replaces": 2, "count": 1} {
		c.Need(ru, n)
	}
}
