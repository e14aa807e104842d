package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C23", Run: checkC23, Explain: "Abstract interpretation of the commands of the program: the filter functions they give to the library are interpreted for any key or message and any combination of options; on every path the options and properties known on that path must decide the documented selection the way the filter answers (all assignments of what is not known on the path are tried). The helpers of the filters (AllNeedlesInHaystack, AnyNeedleInHaystack, AnyOfThem, the Vetted... functions) are checked against their contracts with quantified list facts. In the library functions that print or list a selection, the filter is asked about every element, an element is printed only when selected, every selected element is printed, and printed text reaches the output exactly once (linear typestate of strings).",
		Assume: []string{"the command line library returns the value of the option asked for", "String formats the key or message it is called on", "the clock does not pass an expiry date between two looks at it within one filter call"}})
}

// ---- C23 ----

func checkC23(c *Ctx) {
	checkEqualFns(c)
	for _, n := range []string{"AllNeedlesInHaystack", "AnyNeedleInHaystack", "AnyOfThem"} {
		c.needles(n)
	}
	c.vetting()
	for _, fn := range c.commands() {
		c.filters(fn)
	}
	c.selections()
	for ru, n := range map[string]int{"needles": 10, "vetted": 2, "selects": 20, "asks": 6, "only-selected": 6, "every-one": 6, "printed-once": 4} {
		c.Need(ru, n)
	}
}

// listElem: v is an element of the list l, read from memory.
func listElem(v, l *Term) bool {
	a := addrOf(v)
	return a != nil && a.op == OIndex && a.args[0] == l
}

func neTags(e *Engine, st *State, cond *Term, v bool, in ssa.Instruction) {
	if cond.op == ONot {
		cond, v = cond.args[0], !v
	}
	if !v && isEqTerm(cond) {
		st.tag(mkTag("ne", cond.args[0], cond.args[1], mkFlag(cond.name)))
		st.tag(mkTag("ne", cond.args[1], cond.args[0], mkFlag(cond.name)))
	}
	if v && isEqTerm(cond) {
		a, b := cond.args[0], cond.args[1]
		st.tag(mkTag("match", a, b, mkFlag(cond.name)))
		st.tag(mkTag("match", b, a, mkFlag(cond.name)))
		if s := elemBase(b); s != nil {
			st.tag(mkTag("in", a, s, mkFlag(cond.name)))
		}
		if s := elemBase(a); s != nil {
			st.tag(mkTag("in", b, s, mkFlag(cond.name)))
		}
	}
}

func mkFlag(s string) *Term { return intern(OGlobal, "flag:"+s, tInt) }

// needles checks the contract of the functions that look for call-signs in a
// list: what "true" and "false" mean.
func (c *Ctx) needles(name string) {
	fn := c.fn("", name)
	if fn == nil {
		return
	}
	// letter case is ignored only when that was asked for
	for fold := -1; fold <= 1; fold++ {
		if fold == -1 || len(fn.Params) == 3 {
			c.needle(fn, name, fold)
		}
	}
}

func (c *Ctx) needle(fn *ssa.Function, name string, fold int) {
	var args []*Term
	e := c.NewEngine(Hooks{
		Ess:    essAll,
		Assume: neTags,
		Call:   modelEqual(c.P),
		Return: func(e *Engine, st *State, f *ssa.Function, depth int, vals []*Term, pos token.Pos) {
			if depth != 0 {
				return
			}
			deref := func(p *Term) *Term {
				if isNilT(st, p) == 1 {
					return nil
				}
				return mkInit(p, pointee(p))
			}
			p0, p1 := deref(args[0]), deref(args[1])
			v, known := vals[0].boolVal()
			if !c.Ob(known, "needles", name+" known", pos, "%s returns %s, which is not known to be the outcome of the search", name, vals[0]) {
				return
			}
			empty := p0 == nil || p1 == nil || isZeroLen(st, p0) || isZeroLen(st, p1)
			okTrue := func(t *Term) bool { return fold == 1 || t.args[2] == mkFlag("equal") }
			okFalse := func(t *Term) bool { return fold != 1 || t.args[2] == mkFlag("equalFold") }
			whole := func(v, l *Term) bool { return listElem(v, l) && addrOf(v).args[1].isWhole() }
			ok := false
			switch {
			case !v && empty:
				ok = true
			case empty:
			case name == "AnyOfThem": // list, needle
				for _, t := range tagsNamed(st.must, "match") {
					ok = ok || v && listElem(t.args[0], p0) && t.args[1] == p1 && okTrue(t)
				}
				for _, t := range tagsNamed(st.must, "ne") {
					ok = ok || !v && whole(t.args[0], p0) && t.args[1] == p1 && okFalse(t)
				}
			case name == "AnyNeedleInHaystack":
				for _, t := range tagsNamed(st.must, "match") {
					ok = ok || v && listElem(t.args[0], p0) && listElem(t.args[1], p1) && okTrue(t)
				}
				for _, t := range tagsNamed(st.must, "ne") {
					ok = ok || !v && whole(t.args[0], p0) && whole(t.args[1], p1) && okFalse(t)
				}
			default:
				for _, t := range tagsNamed(st.must, "in") {
					ok = ok || v && whole(t.args[0], p0) && t.args[1] == p1 && okTrue(t)
				}
				for _, t := range tagsNamed(st.must, "ne") {
					ok = ok || !v && listElem(t.args[0], p0) && whole(t.args[1], p1) && okFalse(t)
				}
			}
			c.Ob(ok, "needles", name, pos, "%s may answer %v although that is not what comparing the elements has shown", name, v)
		},
	})
	e.Run(fn, func(st *State, as []*Term) {
		args = as
		if len(as) < 3 {
			return
		}
		st.assume(mkEqInt(mkLen(as[2]), mkInt(0)), fold == -1)
		if fold != -1 {
			st.assume(mkLe(mkInt(1), mkLen(as[2])), true)
			st.assume(mkInit(mkIndex(as[2], mkInt(0), tBool), tBool), fold == 1)
		}
	})
}

// vetting: the functions that take call-signs and ids apart.
func (c *Ctx) vetting() {
	for _, name := range []string{"VettedKeepers", "VettedMessageIds"} {
		fn := c.fn("", name)
		if fn == nil || len(fn.Params) != 1 {
			continue
		}
		var in *Term
		upper := name == "VettedKeepers"
		isUpper := func(v *Term) bool {
			return v.contains(func(x *Term) bool { return x.op == OCall && strings.HasSuffix(x.name, "ToUpper") })
		}
		changed := func(v *Term) bool {
			return v.contains(func(x *Term) bool {
				return x.op == OCall && (strings.HasSuffix(x.name, "ToUpper") || strings.HasSuffix(x.name, "ToLower") || strings.HasSuffix(x.name, "ToTitle") || strings.HasSuffix(x.name, "Title"))
			})
		}
		// the part of an argument that v was made from
		part := func(st *State, v *Term) (p *Term) {
			v.walk(func(x *Term) {
				if a := addrOf(x); a != nil && a.op == OIndex {
					for _, t := range tagsNamed(st.must, "parts") {
						if t.args[0] == a.args[0] && listElem(t.args[1], in) {
							p = a
						}
					}
				}
			})
			return
		}
		e := c.NewEngine(Hooks{
			Ess: essAll,
			Append: func(e *Engine, st *State, base *Term, elems []*Term, spread, res *Term, site ssa.Instruction) {
				if len(elems) != 1 || spread != nil {
					return
				}
				p := part(st, elems[0])
				ok := p != nil && (upper && isUpper(elems[0]) || !upper && !changed(elems[0]))
				c.Ob(ok, "vetted", name, site.Pos(), "%s may return something else than a part of what it was given (%s)", name, elems[0])
				if p != nil {
					st.tag(mkTag("taken", p))
				}
			},
			Load: func(e *Engine, st *State, addr, val *Term, site ssa.Instruction) {
				if p := part(st, val); p == addr {
					st.tag(mkTag("seen", p))
				}
			},
			Back: func(e *Engine, st *State) {
				for _, t := range tagsNamed(st.must, "seen") {
					p := t.args[0]
					done := st.hasTag(mkTag("taken", p))
					for f := range st.facts {
						f.walk(func(x *Term) {
							length := x.op == OLen || x.op == OCall && strings.HasSuffix(x.name, "utf8.RuneCountInString")
							if length && part(st, x) == p && st.truth(mkEqInt(x, mkInt(0))) == 1 {
								done = true
							}
							if empty, ok := st.facts[x]; ok && empty && x.op == OEq && part(st, x) == p {
								for _, y := range x.args {
									if s, ok := y.strVal(); ok && s == "" {
										done = true
									}
								}
							}
						})
					}
					if done {
						st.tag(mkTag("done", p))
					}
				}
				for _, t := range tagsNamed(st.must, "parts") {
					done := isZeroLen(st, t.args[0])
					for _, d := range tagsNamed(st.must, "done") {
						done = done || d.args[0].args[0] == t.args[0] && d.args[0].args[1].isWhole()
					}
					if done && listElem(t.args[1], in) {
						st.tag(mkTag("split", addrOf(t.args[1])))
					}
				}
			},
			Call: func(e *Engine, st *State, cl *Call) ([]CallOut, bool) {
				if !cl.std("strings.FieldsFunc", "strings.Fields", "strings.Split") {
					return nil, false
				}
				v := e.Result(cl)
				st.tag(mkTag("parts", v, cl.Args[0]))
				return []CallOut{{St: st, Val: v}}, true
			},
			Return: func(e *Engine, st *State, f *ssa.Function, depth int, vals []*Term, pos token.Pos) {
				if depth != 0 {
					return
				}
				all := isZeroLen(st, in)
				for _, t := range tagsNamed(st.must, "split") {
					all = all || t.args[0].args[0] == in && t.args[0].args[1].isWhole()
				}
				c.Ob(all, "vetted", name+" all", pos, "%s may leave out a part of what it was given", name)
			},
		})
		e.Run(fn, func(st *State, as []*Term) { in = as[0] })
	}
}

// opt is the value of a command line option.
func opt(kind, name string, t types.Type) *Term { return intern(OCall, "option."+kind+":"+name, t) }

// options: the methods of the context of the command line library give the
// values of the options.
func (c *Ctx) cliOptions(e *Engine, st *State, cl *Call) ([]CallOut, bool) {
	i := strings.Index(cl.Name, "cli/v2.Context).")
	if i < 0 || len(cl.Args) != 2 || cl.Res == nil {
		return nil, false
	}
	n, ok := cl.Args[1].strVal()
	if !ok {
		return nil, false
	}
	if _, tuple := cl.Res.(*types.Tuple); tuple {
		return nil, false
	}
	return []CallOut{{St: st, Val: opt(cl.Name[i+len("cli/v2.Context)."):], n, cl.Res)}}, true
}

// filterType: t is the type of a function that selects keys or messages.
func (c *Ctx) filterType(t types.Type) string {
	sig, ok := t.Underlying().(*types.Signature)
	if !ok || sig.Params().Len() != 1 || sig.Results().Len() != 1 || !isBool(sig.Results().At(0).Type()) {
		return ""
	}
	p, ok := sig.Params().At(0).Type().Underlying().(*types.Pointer)
	for _, n := range []string{"Key", "Message"} {
		if ok && isModType(c.P, p.Elem(), n) {
			return n
		}
	}
	return ""
}

// filters interprets a command, and every filter function it gives to the
// library with any key or message.
func (c *Ctx) filters(fn *ssa.Function) {
	seen := map[string]bool{}
	var h Hooks
	h = Hooks{
		Opaque: func(f *ssa.Function) bool {
			return f.Pkg != nil && f.Pkg.Pkg.Path() != modPath+"/"+cmdRel && f.Parent() == nil
		},
		Ess: func(f *Term) bool { return false },
		Call: chain(c.cliOptions, c.filterCalls, func(e *Engine, st *State, cl *Call) ([]CallOut, bool) {
			if cl.Fn == nil || cl.Fn.Pkg == nil || cl.Fn.Pkg.Pkg.Path() != modPath {
				return nil, false
			}
			for _, a := range cl.Args {
				if a.typ == nil || c.filterType(a.typ) == "" {
					continue
				}
				g, binds, ok := closureOf(a)
				if !c.Ob(ok, "selects", fn.Name()+" function", cl.Pos, "%s may select by a function that is not known here (%s)", fn.Name(), a) {
					continue
				}
				key := g.String()
				for _, b := range binds {
					if v := e.readAt(st, b); v != nil {
						key += " " + termKey(v)
					} else {
						key += " " + termKey(b)
					}
				}
				if !seen[key] {
					seen[key] = true
					c.filter(e, st, g, binds, cl, fn.Name())
				}
			}
			return nil, false
		}),
	}
	e := c.NewEngine(h)
	e.Run(fn, nil)
}

// closureOf: the function, and what it captures, of a function value.
func closureOf(t *Term) (*ssa.Function, []*Term, bool) {
	if t == nil {
		return nil, nil, false
	}
	switch t.op {
	case OFunc, OClosure:
		if f, ok := t.obj.(*ssa.Function); ok {
			return f, t.args, true
		}
	}
	return nil, nil, false
}

// filterCalls: what the filters are made of.
func (c *Ctx) filterCalls(e *Engine, st *State, cl *Call) ([]CallOut, bool) {
	pure := func(name string, args ...*Term) ([]CallOut, bool) {
		return []CallOut{{St: st, Val: intern(OCall, name, cl.Res.(types.Type), args...)}}, true
	}
	switch {
	case cl.is(c.P, "", "VettedKeepers", "VettedRecipients", "VettedCallSigns", "VettedKeys"):
		return pure("vetted.upper", cl.Args[0])
	case cl.is(c.P, "", "VettedMessageIds"):
		return pure("vetted.exact", cl.Args[0])
	case cl.is(c.P, "", "AnyNeedleInHaystack", "AllNeedlesInHaystack"):
		if l := e.readPtr(st, cl, cl.Args[0]); l != nil {
			return pure("filter."+cl.Fn.Name(), l, cl.Args[1])
		}
	case cl.is(c.P, "", "AnyOfThem"):
		if l := e.readPtr(st, cl, cl.Args[0]); l != nil {
			return pure("filter.AnyOfThem", l, cl.Args[1])
		}
	case cl.is(c.P, "", "Key.IsExpired"):
		return pure("filter.IsExpired", cl.Args[0])
	case cl.is(c.P, "", "Key.IsValid"):
		return pure("filter.IsValid", cl.Args[0], cl.Args[1])
	}
	return nil, false
}

// A formula over atoms decides what a filter has to select.
type atom struct {
	name string
	val  int // 1 known true, -1 known false, 0 not known
}

// filter interprets a filter function on an element it knows nothing about.
func (c *Ctx) filter(e *Engine, st0 *State, g *ssa.Function, binds []*Term, cl *Call, cmd string) {
	kind := c.filterType(g.Signature)
	elem := mkSym(OSym, "elem:"+g.String(), g.Params[0].Type(), &SymInfo{Kind: "param", What: strings.ToLower(kind)})
	save := e.h
	base := len(e.stack)
	h := Hooks{
		Ess: essAll,
		Opaque: func(f *ssa.Function) bool {
			return f.Pkg != nil && f.Pkg.Pkg.Path() != modPath+"/"+cmdRel && f.Parent() == nil
		},
		Call:   chain(c.cliOptions, c.filterCalls, modelEqual(c.P)),
		Assume: c.settled(kind, elem),
		Return: func(e *Engine, st *State, f *ssa.Function, depth int, vals []*Term, pos token.Pos) {
			if depth != base || f != g {
				return
			}
			for _, v := range []bool{true, false} {
				s := st.clone()
				if !s.assume(vals[0], v) || st.truth(vals[0]) == map[bool]int{true: -1, false: 1}[v] {
					continue
				}
				why := c.decides(s, kind, elem, v)
				c.Ob(why == "", "selects", cmd+" "+kind, pos, "the filter of %s may answer %v for a %s although %s", cmd, v, strings.ToLower(kind), why)
			}
		},
	}
	e.h = h
	s := st0.clone()
	s.assume(mkEq(elem, mkNil()), false)
	e.callFn(g, []*Term{elem}, binds, s, e.ctxID(0, len(e.ctxs), g))
	e.h = save
}

// selection says what a filter has to select: atoms, known or not on a path,
// and clauses over them. Logic is three-valued: 1 true, -1 false, 0 unknown.
type selection struct {
	atoms   []atom
	ix      map[string]int
	rules   map[string]func(v func(string) int) int // always true
	clauses map[string]func(v func(string) int) int // all needed, unless --all or --id decide
}

func and3(l ...int) int {
	r := 1
	for _, x := range l {
		if x < r {
			r = x
		}
	}
	return r
}

func or3(l ...int) int {
	r := -1
	for _, x := range l {
		if x > r {
			r = x
		}
	}
	return r
}

func imp3(a, b int) int { return or3(-a, b) }

func (s *selection) def(name string, v int) {
	s.ix[name] = len(s.atoms)
	s.atoms = append(s.atoms, atom{name, v})
}

func (s *selection) val(name string) int { return s.atoms[s.ix[name]].val }

// selectionOf evaluates the atoms in a state.
func (c *Ctx) selectionOf(st *State, kind string, elem *Term) *selection {
	type fn = func(v func(string) int) int
	s := &selection{ix: map[string]int{}}
	b := func(kind, name string) int { return st.truth(opt(kind, name, tBool)) }
	strs := types.NewSlice(types.Typ[types.String])
	runes2 := types.NewSlice(types.NewSlice(types.Typ[types.Rune]))
	vetted := func(how, name string) *Term {
		return intern(OCall, "vetted."+how, runes2, opt("StringSlice", name, strs))
	}
	prop := func(name string) int { return st.truth(mkInit(fieldOf(elem, name), tBool)) }
	call := func(name string, args ...*Term) int { return st.truth(intern(OCall, "filter."+name, tBool, args...)) }
	empty := func(l *Term) int { return st.truth(mkEqInt(mkLen(l), mkInt(0))) }
	idIn := func(l *Term) int {
		idT := mkInit(fieldOf(elem, "Id"), types.NewSlice(types.Typ[types.Rune]))
		for _, t := range tagsNamed(st.must, "in") {
			if t.args[0] == idT && t.args[1] == l {
				return 1
			}
		}
		for _, t := range tagsNamed(st.must, "ne") {
			if t.args[1] == idT && listElem(t.args[0], l) && addrOf(t.args[0]).args[1].isWhole() {
				return -1
			}
		}
		return call("AnyOfThem", l, fieldOf(elem, "Id"))
	}
	one := func(a, b string) fn { return func(v func(string) int) int { return imp3(v(a), v(b)) } }
	s.def("--all", b("Bool", "all"))
	s.def("--or", b("Bool", "or"))
	s.rules = map[string]fn{"id": func(v func(string) int) int { return imp3(v("no --id"), -v("the id is named")) }}
	if kind == "Key" {
		ids, keepers := vetted("upper", "id"), vetted("upper", "keepers")
		s.def("no --id", empty(ids))
		s.def("the id is named", idIn(ids))
		s.def("no --keepers", empty(keepers))
		s.def("any keeper matches", call("AnyNeedleInHaystack", keepers, fieldOf(elem, "Keepers")))
		s.def("all keepers match", call("AllNeedlesInHaystack", keepers, fieldOf(elem, "Keepers")))
		for _, n := range []string{"invalid", "compromised", "used", "unused", "expired"} {
			s.def("--"+n, b("Bool", n))
		}
		s.def("--valid", b("IsSet", "valid"))
		s.def("compromised", prop("Compromised"))
		s.def("used", prop("Used"))
		s.def("expired", call("IsExpired", elem))
		valid := 0
		days := lin(opt("Int", "valid", tInt)).scale(24 * 3600 * 1e9).term()
		for f, on := range st.facts {
			if f.op == OCall && f.name == "filter.IsValid" && f.args[0] == elem && stripConv(f.args[1]) == days {
				valid = map[bool]int{true: 1, false: -1}[on]
			}
		}
		s.def("valid for the days given", valid)
		s.rules["all"] = one("all keepers match", "any keeper matches")
		s.rules["none"] = func(v func(string) int) int { return imp3(v("no --keepers"), -v("any keeper matches")) }
		s.clauses = map[string]fn{
			"keepers": func(v func(string) int) int {
				return or3(v("no --keepers"), and3(v("--or"), v("any keeper matches")), and3(-v("--or"), v("all keepers match")), v("all keepers match"))
			},
			"invalid":     func(v func(string) int) int { return or3(-v("--invalid"), v("compromised"), v("expired")) },
			"compromised": one("--compromised", "compromised"),
			"used":        one("--used", "used"),
			"unused":      func(v func(string) int) int { return or3(-v("--unused"), -v("used")) },
			"expired":     one("--expired", "expired"),
			"valid": func(v func(string) int) int {
				return imp3(v("--valid"), and3(-v("compromised"), v("valid for the days given")))
			},
		}
		return s
	}
	ids, to, from := vetted("exact", "id"), vetted("upper", "to"), vetted("upper", "from")
	s.def("no --id", empty(ids))
	s.def("the id is named", idIn(ids))
	s.def("no --to", empty(to))
	s.def("no --from", empty(from))
	s.def("any recipient matches", call("AnyNeedleInHaystack", to, fieldOf(elem, "Recipients")))
	s.def("all recipients match", call("AllNeedlesInHaystack", to, fieldOf(elem, "Recipients")))
	s.def("the sender matches", call("AnyOfThem", from, fieldOf(elem, "From")))
	s.rules["all"] = one("all recipients match", "any recipient matches")
	s.rules["none"] = func(v func(string) int) int { return imp3(v("no --to"), -v("any recipient matches")) }
	s.rules["from"] = func(v func(string) int) int { return imp3(v("no --from"), -v("the sender matches")) }
	s.clauses = map[string]fn{
		"to": func(v func(string) int) int {
			return or3(v("no --to"), and3(v("--or"), v("any recipient matches")), and3(-v("--or"), v("all recipients match")), v("all recipients match"))
		},
		"from": func(v func(string) int) int { return or3(v("no --from"), v("the sender matches")) },
	}
	return s
}

// selected is whether the element has to be selected.
func (s *selection) selected(v func(string) int) int {
	r := 1
	for _, f := range s.clauses {
		r = and3(r, f(v))
	}
	return or3(v("--all"), and3(-v("no --id"), v("the id is named")), and3(v("no --id"), r))
}

// decides: "" when what is known on the path decides the selection as v.
func (c *Ctx) decides(st *State, kind string, elem *Term, v bool) string {
	if !v && st.hasTag(mkTag("refuted")) {
		return ""
	}
	s := c.selectionOf(st, kind, elem)
	for n := range s.clauses {
		if st.hasTag(mkTag("clause", mkFlag(n))) {
			s.rules["known "+n] = s.clauses[n]
		}
	}
	var open []int
	for i, a := range s.atoms {
		if a.val == 0 {
			open = append(open, i)
		}
	}
	vals := make([]int, len(s.atoms))
	for i, a := range s.atoms {
		vals[i] = a.val
	}
	get := func(n string) int { return vals[s.ix[n]] }
	for n := uint(0); n < 1<<uint(len(open)); n++ {
		for j, i := range open {
			vals[i] = -1
			if n&(1<<uint(j)) != 0 {
				vals[i] = 1
			}
		}
		possible := true
		for _, r := range s.rules {
			possible = possible && r(get) == 1
		}
		if !possible || (s.selected(get) == 1) == v {
			continue
		}
		var l []string
		for i, a := range s.atoms {
			x := a.name
			if vals[i] < 0 {
				x = "not " + x
			}
			if a.val != 0 {
				l = append(l, x)
			}
		}
		return strings.Join(l, ", ") + " does not decide it so"
	}
	return ""
}

// settled notes the clauses that are known to hold.
func (c *Ctx) settled(kind string, elem *Term) func(e *Engine, st *State, cond *Term, v bool, in ssa.Instruction) {
	return func(e *Engine, st *State, cond *Term, v bool, in ssa.Instruction) {
		neTags(e, st, cond, v, in)
		t := st.clone()
		if !t.assume(cond, v) {
			return
		}
		s := c.selectionOf(t, kind, elem)
		for n, f := range s.clauses {
			if f(s.val) == 1 {
				st.tag(mkTag("clause", mkFlag(n)))
			}
		}
		if s.selected(s.val) == -1 {
			st.tag(mkTag("refuted"))
		}
	}
}

// stripConv removes conversions between integer types that keep the value.
func stripConv(t *Term) *Term {
	for t.op == OConv && len(t.args) == 1 && isInt(t.typ) && isInt(t.args[0].typ) {
		t = t.args[0]
	}
	return t
}

// selections: the library functions that print, list or decipher a selection.
func (c *Ctx) selections() {
	for _, fn := range c.P.Funcs {
		if fn.Pkg == nil || fn.Pkg.Pkg.Path() != modPath || fn.Signature.Recv() == nil || fn.Parent() != nil || len(fn.Blocks) == 0 || !fn.Object().Exported() {
			continue
		}
		// what is exported and imported is C21
		if len(fn.Params) < 2 || !isModType(c.P, pointeeType(fn.Params[0].Type()), "Krypto431") || strings.HasSuffix(fn.Name(), "portKeys") {
			continue
		}
		for i, p := range fn.Params {
			if kind := c.filterType(p.Type()); kind != "" {
				(&selRun{c: c, fn: fn, kind: kind, filterAt: i}).run()
			}
		}
	}
}

func pointeeType(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

type selRun struct {
	c        *Ctx
	fn       *ssa.Function
	kind     string
	filterAt int
	k        *Term
	filter   *Term
}

// elem: p is the address of an element of the list of the store.
func (r *selRun) elem(p *Term) bool {
	return p != nil && p.op == OIndex && isModType(r.c.P, pointee(p), r.kind)
}

// isList: a list of elements.
func (r *selRun) isList(l *Term) bool {
	t := elemType(l.typ)
	return t != nil && isPtr(t) && isModType(r.c.P, pointeeType(t), r.kind)
}

func (r *selRun) run() {
	c, name := r.c, r.fn.Name()
	list := r.kind + "s"
	cell := func() *Term { return fieldOf(r.k, list) }
	debt := func(t *Term) *Term { return mkTag("owed", t) }
	printed := func(t *Term) *Term { return mkTag("printed", t) }
	move := func(st *State, from, to *Term) {
		for _, mk := range []func(*Term) *Term{debt, printed} {
			if st.may[mk(from)] {
				st.may[mk(to)] = true
			}
		}
		delete(st.may, debt(from))
	}
	// use: something of the element at p is used
	use := func(e *Engine, st *State, p *Term, pos token.Pos) {
		c.Ob(st.hasTag(mkTag("sel", p)), "only-selected", name, pos, "%s may show or change something of %s, which the filter has not selected", name, p)
	}
	isText := func(t *Term) bool { return t != nil && t.typ != nil && (isString(t.typ) || isSlice(t.typ)) }
	prints := c.P.reaches(r.fn, c.fn("", r.kind+".String"))
	lists := false
	for i := 0; i < r.fn.Signature.Results().Len(); i++ {
		t := elemType(r.fn.Signature.Results().At(i).Type())
		lists = lists || t != nil && isSlice(t)
	}
	e := c.NewEngine(Hooks{
		EssTag:  func(t *Term) bool { return t.name == "owed" || t.name == "printed" },
		MoveTag: func(t *Term) bool { return t.name == "owed" || t.name == "printed" },
		Opaque: func(f *ssa.Function) bool {
			rc := f.Signature.Recv()
			return f.Pkg != nil && f.Pkg.Pkg.Path() != modPath || rc != nil && isModType(c.P, pointeeType(rc.Type()), r.kind)
		},
		Call: chain(func(e *Engine, st *State, cl *Call) ([]CallOut, bool) {
			if cl.FnT == r.filter {
				p := cl.Args[0]
				c.Ob(r.elem(p) && p.args[0] == e.readAt(st, cell()), "asks", name, cl.Pos, "%s may ask the filter about something else than an element of the list (%s)", name, p)
				no := st.clone()
				st.tag(mkTag("sel", p))
				no.tag(mkTag("treated", p))
				return []CallOut{{St: st, Val: mkBool(true)}, {St: no, Val: mkBool(false)}}, true
			}
			if cl.Fn != nil && cl.Fn.Signature.Recv() != nil && len(cl.Args) > 0 && isModType(c.P, pointee(cl.Args[0]), r.kind) {
				p := cl.Args[0]
				use(e, st, p, cl.Pos)
				if cl.Fn.Name() == "String" {
					v := e.Result(cl)
					once, picked := true, false
					for _, t := range tagsNamed(st.must, "picked") {
						if t.args[0] == p && !hasAged(t.args[1]) {
							picked = true
							once = once && !st.mayTag(mkTag("did", t.args[1]))
							st.tag(mkTag("did", t.args[1]))
						}
					}
					if !picked {
						once = !st.mayTag(mkTag("shown", p))
						st.tag(mkTag("shown", p))
					}
					c.Ob(once, "printed-once", name+" twice", cl.Pos, "%s may print an element twice", name)
					st.tag(mkTag("treated", p))
					st.may[debt(v)] = true
					return []CallOut{{St: st, Val: v}}, true
				}
				if strings.Contains(cl.Fn.Name(), "Decipher") && !prints && !lists {
					st.tag(mkTag("treated", p))
				}
				return nil, false
			}
			return nil, false
		}, r.text(debt, printed, move)),
		Concat: func(e *Engine, st *State, x, y, res *Term, in ssa.Instruction) {
			for _, a := range []*Term{x, y} {
				if isText(a) {
					move(st, a, res)
				}
			}
		},
		Load: func(e *Engine, st *State, addr, val *Term, in ssa.Instruction) {
			if addr.op == OIndex && r.elem(val) {
				// only selected elements are listed (see Append and Store)
				st.tag(mkTag("picked", val, addr))
				st.tag(mkTag("sel", val))
			}
			// a field of an element
			if a := addr; a.op == OField && r.elem(a.args[0]) {
				use(e, st, a.args[0], in.Pos())
			}
		},
		Append: func(e *Engine, st *State, base *Term, elems []*Term, spread, res *Term, in ssa.Instruction) {
			if res == nil {
				return
			}
			for _, x := range elems {
				if isText(x) {
					move(st, x, res)
				}
			}
			if isText(base) {
				move(st, base, res)
			}
			if !r.isList(res) {
				return
			}
			ok := spread == nil && len(elems) == 1 && r.elem(elems[0]) && st.hasTag(mkTag("sel", elems[0])) && !st.mayTag(mkTag("listed", elems[0]))
			c.Ob(ok, "only-selected", name+" list", in.Pos(), "%s may list something else than what was selected, once", name)
			if ok {
				st.tag(mkTag("treated", elems[0]))
				st.tag(mkTag("listed", elems[0]))
			}
		},
		Store: func(e *Engine, st *State, addr, val *Term, in ssa.Instruction) {
			if addr.op != OIndex || !r.elem(val) || isVarargs(rootOf(addr)) {
				return
			}
			ok := st.hasTag(mkTag("sel", val)) && !st.mayTag(mkTag("listed", val))
			c.Ob(ok, "only-selected", name+" list", in.Pos(), "%s may list something else than what was selected, once", name)
			st.tag(mkTag("treated", val))
			st.tag(mkTag("listed", val))
		},
		Assume: func(e *Engine, st *State, cond *Term, v bool, in ssa.Instruction) {
			t := st.clone()
			if !t.assume(cond, v) {
				return
			}
			var full [][2]*Term
			for l := range st.cont {
				if r.isList(l) && isZeroLen(t, l) {
					st.tag(mkTag("nothing"))
				}
				if !r.isList(l) {
					continue
				}
				cand := map[*Term]bool{}
				for _, x := range st.env {
					cand[x] = true
				}
				for _, x := range st.heap {
					if x != nil {
						cand[x] = true
					}
				}
				for x := range cand {
					if t := elemType(x.typ); t != nil && isSlice(t) && x.typ != nil && isSlice(x.typ) && x.op != OConst {
						full = append(full, [2]*Term{x, l})
					}
				}
			}
			for _, f := range full {
				if t.truth(mkEqInt(mkLen(f[0]), mkLen(f[1]))) == 1 {
					st.tag(mkTag("as-many", f[0]))
				}
			}
		},
		Return: func(e *Engine, st *State, f *ssa.Function, depth int, vals []*Term, pos token.Pos) {
			if depth != 0 || succeeds(st, f, vals) == -1 {
				return
			}
			all := cell() != nil && isZeroLen(st, entryOf(cell()))
			for _, t := range tagsNamed(st.must, "treated") {
				all = all || r.elem(t.args[0]) && t.args[0].args[0] == entryOf(cell()) && t.args[0].args[1].isWhole()
			}
			c.Ob(all, "every-one", name, pos, "%s may pass over an element of the list", name)
			if prints && len(tagsNamed(st.may, "listed")) > 0 && !st.hasTag(mkTag("nothing")) {
				did := false
				for _, t := range tagsNamed(st.must, "did") {
					did = did || t.args[0].args[1].isWhole()
				}
				c.Ob(did, "every-one", name+" printed", pos, "%s may leave out an element that was selected", name)
			}
			for _, t := range tagsNamed(st.may, "owed") {
				c.Ob(containsTerm(vals, t.args[0]) || isZeroLen(st, t.args[0]), "printed-once", name+" lost", pos, "%s may lose the text of a selected element (%s)", name, t.args[0])
			}
			for _, v := range vals {
				// one line for each selected element
				if t := elemType(v.typ); t != nil && isSlice(t) {
					c.Ob(st.hasTag(mkTag("as-many", v)) || st.hasTag(mkTag("nothing")) && isZeroLen(st, v), "every-one", name+" lines", pos, "%s may return another number of lines than elements were selected", name)
				}
			}
		},
	})
	e.sums = true
	e.Run(r.fn, func(st *State, args []*Term) { r.k, r.filter = args[0], args[r.filterAt] })
}

// text follows text through the functions of the standard library and into
// files and documents.
func (r *selRun) text(debt, printed func(*Term) *Term, move func(st *State, from, to *Term)) callModel {
	return func(e *Engine, st *State, cl *Call) ([]CallOut, bool) {
		var owed []*Term
		for _, a := range cl.Args {
			a = unwrap(a)
			if st.mayTag(debt(a)) || st.mayTag(printed(a)) {
				owed = append(owed, a)
			}
		}
		if len(owed) == 0 {
			return nil, false
		}
		if cl.Fn != nil && cl.Fn.Pkg != nil && strings.HasPrefix(cl.Fn.Pkg.Pkg.Path(), modPath) {
			return nil, false
		}
		n := cl.Name[strings.LastIndex(cl.Name, ".")+1:]
		recv := strings.Contains(cl.Name, "strings.Builder") || strings.Contains(cl.Name, "bytes.Buffer")
		switch {
		case recv && strings.HasPrefix(n, "Write"):
			for _, a := range owed {
				move(st, a, unwrap(cl.Args[0]))
			}
		case n == "MultiCell" || strings.HasPrefix(n, "Cell") || strings.HasPrefix(n, "Write") || n == "Text" || strings.HasPrefix(n, "Fprint"):
			for _, a := range owed {
				r.c.Ob(!st.mayTag(printed(a)), "printed-once", r.fn.Name(), cl.Pos, "%s may print text it has printed before", r.fn.Name())
				delete(st.may, debt(a))
				st.may[printed(a)] = true
			}
		case cl.Res != nil && !isInt(resType(cl)) && !isBool(resType(cl)):
			v := e.Result(cl)
			for _, x := range resList(v) {
				if x.typ != nil && isString(x.typ) {
					for _, a := range owed {
						move(st, a, x)
					}
				}
			}
			return []CallOut{{St: st, Val: v}}, true
		}
		return nil, false
	}
}
