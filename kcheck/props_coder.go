package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C17", Run: checkC17, Explain: "The coder and the decoder are abstracted to finite automata by constant propagation through their source: the fields of the coder state are the states (fields that only count are left symbolic), the characters of the coding tables and the letters A-Z are the inputs. The product of both automata is explored to a fixpoint from every initial state: for every reachable pair of states and every character the decoder has to give back that character for the letters the coder writes, and both must end in a pair of states that again agree. Characters outside of the tables are one symbolic input that has to be refused. Control sequences (change of key, padding) are followed the same way. The tables, which must never be written, are compared with the printed legend as constants.",
		Assume: []string{"the long s and the dotless i are sent as s and i"}})
}

// ---- C17 ----

// gval is the constant value of a package-level variable.
type gval struct {
	str   string
	kind  byte // 's' string, 'r' runes, 'l' list, 'i' integer
	n     int64
	elems []*gval
	typ   types.Type
	id    string
	term  *Term
}

// globals evaluates package-level variables that are set once, by their
// initialiser.
type globals struct {
	p    *Program
	init map[*ssa.Global][]ssa.Value
	vals map[*ssa.Global]*gval
	n    int
	all  []*gval
}

func newGlobals(p *Program) *globals {
	g := &globals{p: p, init: map[*ssa.Global][]ssa.Value{}, vals: map[*ssa.Global]*gval{}}
	for _, sp := range p.SPkg {
		f := sp.Func("init")
		if f == nil {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if gl, ok := st.Addr.(*ssa.Global); ok {
						g.init[gl] = append(g.init[gl], st.Val)
					}
				}
			}
		}
	}
	return g
}

func (g *globals) of(gl *ssa.Global) *gval {
	if v, ok := g.vals[gl]; ok {
		return v
	}
	g.vals[gl] = nil
	if len(g.init[gl]) == 1 {
		g.vals[gl] = g.eval(g.init[gl][0])
	}
	return g.vals[gl]
}

func (g *globals) eval(v ssa.Value) *gval {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return nil
		}
		switch x.Value.Kind() {
		case constant.String:
			return &gval{kind: 's', str: constant.StringVal(x.Value), typ: x.Type()}
		case constant.Int:
			return &gval{kind: 'i', n: x.Int64(), typ: x.Type()}
		}
	case *ssa.ChangeType:
		return g.eval(x.X)
	case *ssa.Convert:
		y := g.eval(x.X)
		if y == nil {
			return nil
		}
		if y.kind == 'i' && isInt(x.Type()) {
			return y
		}
		if e := elemType(x.Type()); e != nil && y.kind == 's' {
			if b, ok := e.Underlying().(*types.Basic); ok && b.Kind() == types.Int32 {
				r := &gval{kind: 'l', typ: x.Type()}
				for _, c := range y.str {
					r.elems = append(r.elems, &gval{kind: 'i', n: int64(c), typ: e})
				}
				return g.name(r)
			}
		}
	case *ssa.UnOp:
		if gl, ok := x.X.(*ssa.Global); ok && x.Op == token.MUL {
			return g.of(gl)
		}
	case *ssa.BinOp:
		a, b := g.eval(x.X), g.eval(x.Y)
		if x.Op == token.ADD && a != nil && b != nil && a.kind == 's' && b.kind == 's' {
			return &gval{kind: 's', str: a.str + b.str, typ: x.Type()}
		}
	case *ssa.Slice:
		al, ok := x.X.(*ssa.Alloc)
		if !ok || x.Low != nil || x.High != nil {
			return nil
		}
		at, ok := al.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		if !ok {
			return nil
		}
		r := &gval{kind: 'l', typ: x.Type(), elems: make([]*gval, at.Len())}
		for _, rf := range *al.Referrers() {
			ia, ok := rf.(*ssa.IndexAddr)
			if !ok {
				continue
			}
			i, ok := ia.Index.(*ssa.Const)
			if !ok {
				return nil
			}
			for _, s := range *ia.Referrers() {
				if st, ok := s.(*ssa.Store); ok && st.Addr == ia {
					r.elems[i.Int64()] = g.eval(st.Val)
				} else {
					return nil
				}
			}
		}
		for i, e := range r.elems {
			if e == nil {
				if !isInt(at.Elem()) {
					return nil
				}
				r.elems[i] = &gval{kind: 'i', typ: at.Elem()}
			}
		}
		return g.name(r)
	}
	return nil
}

func (g *globals) name(v *gval) *gval {
	g.n++
	v.id = fmt.Sprintf("const:%d", g.n)
	v.term = mkSym(OSym, v.id, v.typ, &SymInfo{Kind: "const", What: v.String()})
	constLen[v.term] = int64(len(v.elems))
	g.all = append(g.all, v)
	return v
}

func (v *gval) value() *Term {
	switch v.kind {
	case 's':
		return mkConst(constant.MakeString(v.str), v.typ)
	case 'i':
		return mkInt(v.n)
	}
	return v.term
}

// String gives the text of a list of runes.
func (v *gval) String() string {
	if v == nil {
		return "?"
	}
	if v.kind == 's' {
		return v.str
	}
	s := ""
	for _, e := range v.elems {
		if e.kind == 'i' {
			s += string(rune(e.n))
		} else {
			s += "[" + e.String() + "]"
		}
	}
	return s
}

// memory is the Const hook: reading a constant variable or a part of it.
func (g *globals) memory(addr *Term) *Term {
	if addr.op == OGlobal {
		gl, _ := addr.obj.(*ssa.Global)
		if v := g.of(gl); gl != nil && v != nil {
			return v.value()
		}
		return nil
	}
	if addr.op != OIndex {
		return nil
	}
	i, ok := addr.args[1].intVal()
	if !ok {
		return nil
	}
	for _, v := range g.all {
		if v.term == addr.args[0] && i >= 0 && i < int64(len(v.elems)) {
			return v.elems[i].value()
		}
	}
	return nil
}

// assume gives a state the lengths of the constant lists.
func (g *globals) assume(st *State) {
	for _, v := range g.all {
		st.assume(mkEq(v.term, mkNil()), false)
		st.tag(mkTag("const", v.term))
	}
}

// writes finds what may change the values of constant variables.
func (g *globals) writes(c *Ctx, gls map[*ssa.Global]bool) (reads int) {
	seen := map[ssa.Value]bool{}
	bad := func(pos token.Pos, in ssa.Instruction) {
		c.Ob(false, "tables-constant", in.Parent().Name(), pos, "%s may change a coding table", in.Parent().Name())
	}
	var follow func(v ssa.Value, addr bool)
	follow = func(v ssa.Value, addr bool) {
		if seen[v] || v.Referrers() == nil {
			return
		}
		seen[v] = true
		for _, in := range *v.Referrers() {
			switch x := in.(type) {
			case *ssa.Store:
				if x.Addr == v {
					bad(x.Pos(), in)
				} else if addr {
					bad(x.Pos(), in)
				}
			case *ssa.UnOp:
				if x.Op == token.MUL && isSlice(x.Type()) {
					follow(x, false)
				}
			case *ssa.IndexAddr:
				follow(x, true)
			case *ssa.Slice:
				follow(x, false)
			case *ssa.Phi:
				follow(x, addr)
			case ssa.CallInstruction:
				cc := x.Common()
				b, _ := cc.Value.(*ssa.Builtin)
				for i, a := range cc.Args {
					if a != v {
						continue
					}
					if b != nil {
						if i == 0 && (b.Name() == "append" || b.Name() == "copy") {
							bad(x.Pos(), in)
						}
						continue
					}
					g := cc.StaticCallee()
					if g != nil && c.P.InModule(g) && i < len(g.Params) {
						follow(g.Params[i], addr)
					} else if addr {
						bad(x.Pos(), in)
					}
				}
			}
		}
	}
	for _, fn := range c.P.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var ops [16]*ssa.Value
				for _, o := range in.Operands(ops[:0]) {
					if o == nil || *o == nil {
						continue
					}
					gl, ok := (*o).(*ssa.Global)
					if !ok || !gls[gl] {
						continue
					}
					if fn.Name() == "init" && fn.Synthetic != "" {
						continue
					}
					reads++
					u, ok := in.(*ssa.UnOp)
					if !c.Ob(ok, "tables-constant", fn.Name(), in.Pos(), "%s may change a coding table", fn.Name()) {
						continue
					}
					follow(u, false)
				}
			}
		}
	}
	return
}

// coder is the pair of functions that write and read the coding.
type coder struct {
	c        *Ctx
	g        *globals
	enc, dec *ssa.Function
	state    types.Type // the struct that is the state
	wide     map[string]bool
	seen     map[string]map[string]bool
	e        *Engine
	runs     int
	memo     map[string]*codeStep
	// the states of the decoder between the letters of a text and within the id
	// of the next key
	texts, ins [][]*Term
	// the largest numbers of letters for a character and for an announcement
	// (without the id), and how many of the runs that were looked at each field
	// counts the letters in
	most, mostMark, steps int
	grows                 map[int]int
}

func newCoder(c *Ctx, g *globals) *coder {
	return &coder{c: c, g: g, wide: map[string]bool{}, seen: map[string]map[string]bool{}, memo: map[string]*codeStep{}, grows: map[int]int{}}
}

// size notes how many letters a run wrote.
func (k *coder) size(s *codeStep, most *int) {
	n := len(s.out)
	if s.mark {
		n--
	}
	if n > *most {
		*most = n
	}
	k.steps++
	for i, d := range s.delta {
		if d == n {
			k.grows[i]++
		}
	}
}

// codeStep is one transition: the state before, the input, and what happens.
type codeStep struct {
	out  []rune
	mark bool // something else than known letters was written (a key id)
	next []*Term
	// by how much the fields grew (other than by the length of an id)
	delta map[int]int
	err   bool
	bad   string
}

const keyMark = -1

func checkC17(c *Ctx) {
	g := newGlobals(c.P)
	k := newCoder(c, g)
	enc, dec := c.fn("", "Message.Encipher"), c.fn("", "Message.Decipher")
	if enc == nil || dec == nil {
		return
	}
	k.enc, k.dec = k.find(enc), k.find(dec)
	if !c.Ob(k.enc != nil && k.dec != nil && k.enc != k.dec, "coder", "found", enc.Pos(), "Encipher and Decipher do not use a coder and a decoder of single characters") {
		return
	}
	k.state = pointee2(k.enc.Params[0].Type())
	tabs := k.tables()
	if tabs == nil {
		return
	}
	k.legend(tabs)
	k.product(tabs)
	c.Need("tables-constant", 3)
	c.Need("round-trip", 200)
	c.Need("refuses-unknown", 2)
	c.Need("key-change", 26)
	c.Need("padding", 1)
	c.Need("legend", 52)
}

func pointee2(t types.Type) types.Type { return pointeeType(t) }

func isRunePtr(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	b, ok := p.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Int32
}

func isRunesPtr(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	return ok && isSlice(p.Elem()) && isRune(elemType(p.Elem()))
}

func isRune(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Int32
}

// find finds the method func(*state, *rune, *[]rune) error that fn uses, next
// to it in the call graph.
func (k *coder) find(fn *ssa.Function) *ssa.Function {
	seen := map[*ssa.Function]bool{fn: true}
	queue := []*ssa.Function{fn}
	for len(queue) > 0 {
		f := queue[0]
		queue = queue[1:]
		sig := f.Signature
		if sig.Recv() != nil && f.Parent() == nil && isPtr(sig.Recv().Type()) && sig.Params().Len() == 2 &&
			(isRunePtr(sig.Params().At(0).Type()) || isRune(sig.Params().At(0).Type())) && isRunesPtr(sig.Params().At(1).Type()) && sig.Results().Len() == 1 && isError(sig.Results().At(0).Type()) {
			return f
		}
		callsOf(f, func(ci ssa.CallInstruction) {
			if g := ci.Common().StaticCallee(); g != nil && k.c.P.InModule(g) && !seen[g] {
				seen[g] = true
				queue = append(queue, g)
			}
		})
		for _, a := range f.AnonFuncs {
			if !seen[a] {
				seen[a] = true
				queue = append(queue, a)
			}
		}
	}
	return nil
}

// tables finds the coding tables: the list of lists of runes the coder reads.
func (k *coder) tables() []*gval {
	c := k.c
	gls := map[*ssa.Global]bool{}
	var tab *gval
	var where *ssa.Global
	for fn := range k.reach(k.enc) {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if u, ok := in.(*ssa.UnOp); ok {
					if gl, ok := u.X.(*ssa.Global); ok && isSlice(u.Type()) {
						v := k.g.of(gl)
						if v != nil {
							gls[gl] = true
							if len(v.elems) > 0 && v.elems[0].kind == 'l' {
								tab, where = v, gl
							}
						}
					}
				}
			}
		}
	}
	if !c.Ob(tab != nil, "coder", "tables", k.enc.Pos(), "the coder does not use constant coding tables") {
		return nil
	}
	_ = where
	// the variables the tables are made of
	for gl := range k.g.init {
		if v := k.g.of(gl); v != nil && v.kind == 'l' {
			for _, t := range tab.elems {
				if t == v {
					gls[gl] = true
				}
			}
		}
	}
	k.g.writes(c, gls)
	ok := len(tab.elems) == 2
	for _, t := range tab.elems {
		ok = ok && len(t.elems) == 26
	}
	if !c.Ob(ok, "coder", "columns", k.enc.Pos(), "the coding tables are not two tables with a column for each letter: %s", tab) {
		return nil
	}
	return tab.elems
}

func (k *coder) reach(fn *ssa.Function) map[*ssa.Function]bool {
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if seen[f] || !k.c.P.InModule(f) {
			return
		}
		seen[f] = true
		callsOf(f, func(ci ssa.CallInstruction) {
			if g := ci.Common().StaticCallee(); g != nil {
				walk(g)
			}
		})
		for _, a := range f.AnonFuncs {
			walk(a)
		}
	}
	walk(fn)
	return seen
}

// special is the mark of the columns with control characters: the character
// the last column of every table has.
func special(tabs []*gval) rune { return rune(tabs[0].elems[25].n) }

// legend compares the printed legend with the tables.
func (k *coder) legend(tabs []*gval) {
	c := k.c
	var foot *gval
	var gl *ssa.Global
	for x := range k.g.init {
		if v := k.g.of(x); v != nil && v.kind == 's' && strings.Contains(v.str, "CT1") {
			foot, gl = v, x
		}
	}
	if !c.Ob(foot != nil, "legend", "found", k.enc.Pos(), "there is no constant legend to be printed on the keys") {
		return
	}
	rows := map[string][]rune{}
	meaning := map[string]rune{}
	for _, l := range strings.Split(strings.ReplaceAll(foot.str, "\r", ""), "\n") {
		r := []rune(l)
		for _, n := range []string{"IDX ", "CT1 ", "CT2 "} {
			if strings.HasPrefix(l, n) {
				rows[n] = r
			}
		}
		// "> Switch table (Z)"
		i := strings.LastIndexByte(l, '(')
		if i < 0 || !strings.HasSuffix(strings.TrimSpace(l), ")") {
			continue
		}
		letter := []rune(l[i+1:])[0]
		for _, w := range []string{"Switch table", "Toggle binary mode", "Toggle case", "Change key"} {
			if j := strings.Index(l, w); j > 0 {
				f := []rune(strings.TrimSpace(l[:j]))
				meaning[w] = letter
				if len(f) > 0 {
					meaning[string(f[len(f)-1])] = letter
				}
			}
		}
	}
	idx := rows["IDX "]
	n := 0
	for p := 4; p < len(idx); p++ {
		l := idx[p]
		if l < 'A' || l > 'Z' || p > 4+52 {
			continue
		}
		n++
		for t, row := range []string{"CT1 ", "CT2 "} {
			printed := ' '
			if p < len(rows[row]) {
				printed = rows[row][p]
			}
			want := rune(tabs[t].elems[l-'A'].n)
			if want == special(tabs) {
				c.Ob(meaning[string(printed)] == l, "legend", fmt.Sprint(row, string(l)), gl.Pos(), "the legend has %q in column %c of table %d, which is not explained as the control character %c", printed, l, t+1, l)
			} else {
				c.Ob(printed == want, "legend", fmt.Sprint(row, string(l)), gl.Pos(), "the legend has %q in column %c of table %d, where the coder has %q", printed, l, t+1, want)
			}
		}
	}
	c.Ob(n == 26, "legend", "columns", gl.Pos(), "the legend has %d columns", n)
	for w, l := range map[string]rune{"Switch table": 'Z', "Toggle binary mode": 'W', "Toggle case": 'X', "Change key": 'Y'} {
		c.Ob(meaning[w] == l, "legend", w, gl.Pos(), "the legend explains %q as %q, it is %c", w, meaning[w], l)
	}
}

// fields of the state.
func (k *coder) fields() []*types.Var {
	s := k.state.Underlying().(*types.Struct)
	var l []*types.Var
	for i := 0; i < s.NumFields(); i++ {
		l = append(l, s.Field(i))
	}
	return l
}

func (k *coder) key(vec []*Term) string {
	s := ""
	for i, v := range vec {
		if v == nil || k.wide[k.fields()[i].Name()] {
			s += "*,"
		} else {
			s += v.String() + ","
		}
	}
	return s
}

// note watches how many values a field takes.
func (k *coder) note(vec []*Term) (widened bool) {
	for i, v := range vec {
		f := k.fields()[i]
		if k.wide[f.Name()] || v == nil || v.op != OConst {
			continue
		}
		if k.seen[f.Name()] == nil {
			k.seen[f.Name()] = map[string]bool{}
		}
		k.seen[f.Name()][v.String()] = true
		if len(k.seen[f.Name()]) > 4 {
			k.wide[f.Name()] = true
			widened = true
		}
	}
	return
}

var ghostOut = intern(OGlobal, "ghost:letters written", types.NewPointer(types.Typ[types.String]))

// run abstracts fn for one state and input.
func (k *coder) run(fn *ssa.Function, vec []*Term, prep func(st *State, args []*Term), other bool) *codeStep {
	k.runs++
	var recv *Term
	alphabet := map[rune]bool{}
	if other {
		for _, v := range k.g.all {
			for _, e := range v.elems {
				if e.kind == 'i' {
					alphabet[rune(e.n)] = true
				}
			}
		}
	}
	e := k.e
	if e == nil {
		e = k.c.NewEngine(Hooks{})
		e.unrollMax, e.unrollAny = 64, 64
		k.e = e
	}
	e.h = Hooks{
		Const: k.g.memory,
		Append: func(e *Engine, st *State, base *Term, elems []*Term, spread, res *Term, in ssa.Instruction) {
			if res == nil || !isRune(elemType(res.typ)) {
				return
			}
			s := ""
			if v := st.heap[ghostOut]; v != nil {
				s = v.name
			}
			for _, x := range elems {
				if i, ok := x.intVal(); ok {
					s += string(rune(i))
				} else {
					s += "\x00"
				}
			}
			if spread != nil {
				s += "\x01"
			}
			st.heap[ghostOut] = intern(OGlobal, s, nil)
		},
		Call: func(e *Engine, st *State, cl *Call) ([]CallOut, bool) {
			if cl.Fn == nil || cl.Fn.Pkg == nil || len(cl.Args) == 0 {
				return nil, false
			}
			if cl.Fn.Pkg.Pkg.Path() != "unicode" {
				return nil, false
			}
			i, ok := cl.Args[0].intVal()
			if ok {
				x := rune(i)
				var v *Term
				switch cl.Fn.Name() {
				case "IsUpper":
					v = mkBool(unicode.IsUpper(x))
				case "IsLower":
					v = mkBool(unicode.IsLower(x))
				case "IsLetter":
					v = mkBool(unicode.IsLetter(x))
				case "IsDigit":
					v = mkBool(unicode.IsDigit(x))
				case "IsNumber":
					v = mkBool(unicode.IsNumber(x))
				case "IsSpace":
					v = mkBool(unicode.IsSpace(x))
				case "IsPunct":
					v = mkBool(unicode.IsPunct(x))
				case "ToUpper":
					v = mkInt(int64(unicode.ToUpper(x)))
				case "ToLower":
					v = mkInt(int64(unicode.ToLower(x)))
				}
				if v != nil {
					return []CallOut{{St: st, Val: v}}, true
				}
			}
			if other && isRune(resType(cl)) {
				v := e.Result(cl)
				for x := range alphabet {
					st.assume(mkEqInt(v, mkInt(int64(x))), false)
				}
				return []CallOut{{St: st, Val: v}}, true
			}
			return nil, false
		},
	}
	step := &codeStep{}
	outs := e.Run(fn, func(st *State, args []*Term) {
		recv = args[0]
		k.g.assume(st)
		for i, f := range k.fields() {
			if v := vec[i]; v != nil && !k.wide[f.Name()] {
				a := mkField(recv, k.state, i)
				st.heap[a] = v
				st.dirty[a] = true
			}
		}
		for _, a := range args[1:] {
			if isPtr(a.typ) {
				st.assume(mkEq(a, mkNil()), false)
			}
		}
		if prep != nil {
			prep(st, args)
		}
	})
	var rets []Outcome
	for _, o := range outs {
		if o.kind != "ret" {
			step.bad = "may " + o.kind
			return step
		}
		rets = append(rets, o)
	}
	if len(rets) == 0 {
		step.bad = "never returns"
		return step
	}
	for i, o := range rets {
		s := o.st
		n := &codeStep{}
		switch succeeds(s, fn, o.vals) {
		case -1:
			n.err = true
		case 0:
			n.bad = "may fail or not"
		}
		if v := s.heap[ghostOut]; v != nil {
			for _, x := range v.name {
				switch x {
				case 0:
					n.bad = "writes an unknown letter"
				case 1:
					n.mark = true
					n.out = append(n.out, keyMark)
				default:
					n.out = append(n.out, x)
				}
			}
		}
		for j, f := range k.fields() {
			a := mkField(recv, k.state, j)
			v := k.e.peek(s, a, f.Type())
			if v != nil && isInt(f.Type()) {
				from := mkInit(a, f.Type())
				if vec[j] != nil && !k.wide[f.Name()] {
					from = vec[j]
				}
				d := lin(linSub(v, from))
				id := len(d.atoms) == 1 && n.mark
				for x, m := range d.atoms {
					id = id && m == 1 && x.op == OLen
				}
				if len(d.atoms) == 0 || id {
					if n.delta == nil {
						n.delta = map[int]int{}
					}
					n.delta[j] = int(d.c)
				}
			}
			if v != nil && v.op != OConst {
				v = nil
			}
			n.next = append(n.next, v)
		}
		if i > 0 {
			if n.err && step.err {
				continue
			}
			if n.err != step.err || string(n.out) != string(step.out) || k.key(n.next) != k.key(step.next) {
				step.bad = "is not determined by the state and the character"
				return step
			}
			continue
		}
		step = n
	}
	return step
}

// char runs the coder or decoder on one character.
func (k *coder) char(fn *ssa.Function, vec []*Term, x rune) *codeStep {
	id := fn.String() + "|" + k.key(vec) + "|" + string(x)
	if s := k.memo[id]; s != nil {
		return s
	}
	s := k.run(fn, vec, func(st *State, args []*Term) {
		if isPtr(args[1].typ) {
			st.heap[args[1]] = mkInt(int64(x))
			st.dirty[args[1]] = true
		} else {
			st.env[fn.Params[1]] = mkInt(int64(x))
			args[1] = mkInt(int64(x))
		}
	}, false)
	k.memo[id] = s
	return s
}

// inits are the initial states: what the functions that make or reset a state
// leave behind.
func (k *coder) inits() [][]*Term {
	c := k.c
	var res [][]*Term
	found := map[*ssa.Function]bool{}
	var fns []*ssa.Function
	for _, top := range []string{"Message.Encipher", "Message.Decipher"} {
		for f := range k.reach(c.fn("", top)) {
			sig := f.Signature
			if f == k.enc || f == k.dec || found[f] {
				continue
			}
			makes := sig.Recv() == nil && sig.Results().Len() == 1 && types.Identical(pointeeType(sig.Results().At(0).Type()), k.state) && sig.Params().Len() == 0
			resets := sig.Recv() != nil && sig.Params().Len() == 0 && sig.Results().Len() == 0 && types.Identical(pointeeType(sig.Recv().Type()), k.state)
			if makes || resets {
				found[f] = true
				fns = append(fns, f)
			}
		}
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
	for _, f := range fns {
		var vec []*Term
		if f.Signature.Recv() != nil {
			none := make([]*Term, len(k.fields()))
			s := k.run(f, none, nil, false)
			if c.Ob(s.bad == "", "initial", f.Name(), f.Pos(), "%s %s", f.Name(), s.bad) {
				vec = s.next
			}
		} else {
			outs := k.e0().Run(f, func(st *State, args []*Term) { k.g.assume(st) })
			for _, o := range outs {
				if o.kind != "ret" {
					continue
				}
				for i, fl := range k.fields() {
					v := k.e.peek(o.st, mkField(o.vals[0], k.state, i), fl.Type())
					if v == nil && o.vals[0].op == OStruct {
						v = mkFieldVal(o.vals[0], k.state, i)
					}
					if v != nil && v.op != OConst {
						v = nil
					}
					vec = append(vec, v)
				}
				break
			}
		}
		if vec != nil {
			res = append(res, vec)
		}
	}
	return res
}

func (k *coder) e0() *Engine {
	if k.e == nil {
		k.e = k.c.NewEngine(Hooks{})
		k.e.unrollMax, k.e.unrollAny = 64, 64
	}
	k.e.h = Hooks{Const: k.g.memory}
	return k.e
}

// product explores the product of the coder and the decoder.
func (k *coder) product(tabs []*gval) {
	c := k.c
	plain := map[rune]bool{}
	for _, t := range tabs {
		for _, x := range t.elems {
			if rune(x.n) != special(tabs) {
				plain[rune(x.n)] = true
			}
		}
	}
	var alphabet []rune
	for x := rune(0); x <= unicode.MaxRune; x++ {
		if up := unicode.ToUpper(x); plain[up] && (x == up || unicode.ToLower(up) == x) {
			alphabet = append(alphabet, x)
		}
	}
	for x := 'A'; x <= 'Z'; x++ {
		c.Ob(plain[x], "alphabet", "letters", k.enc.Pos(), "the letter %c can not be enciphered", x)
	}
	for x := '0'; x <= '9'; x++ {
		c.Ob(plain[x], "alphabet", "digits", k.enc.Pos(), "the digit %c can not be enciphered", x)
	}
	c.Ob(plain[' '], "alphabet", "space", k.enc.Pos(), "a space can not be enciphered")
again:
	k.most, k.mostMark, k.steps, k.grows = 0, 0, 0, map[int]int{}
	var pairs map[string]bool
	inits := k.inits()
	if !c.Ob(len(inits) > 0, "initial", "found", k.enc.Pos(), "no function makes or resets the state of the coder") {
		return
	}
	type pair struct{ e, d []*Term }
	var queue []pair
	pairs = map[string]bool{}
	push := func(e, d []*Term) bool {
		if k.note(e) || k.note(d) {
			return false
		}
		id := k.key(e) + "|" + k.key(d)
		if !pairs[id] {
			pairs[id] = true
			queue = append(queue, pair{e, d})
		}
		return true
	}
	reset := func() { k.memo = map[string]*codeStep{} }
	for _, a := range inits {
		for _, b := range inits {
			if !push(a, b) {
				reset()
				goto again
			}
		}
	}
	var announced [][]*Term
	var decs = map[string][]*Term{}
	for len(queue) > 0 {
		p := queue[0]
		queue = queue[1:]
		decs[k.key(p.d)] = p.d
		k.texts = append(k.texts, p.d)
		if len(pairs) > 400 {
			c.Ob(false, "round-trip", "states", k.enc.Pos(), "the coder and the decoder do not stay in step, their states keep drifting apart")
			return
		}
		for _, x := range alphabet {
			s := k.char(k.enc, p.e, x)
			if !c.Ob(s.bad == "" && !s.err && !s.mark, "round-trip", "coder", k.enc.Pos(), "%s refuses or does not decide how to write %q (state %s) %s", k.enc.Name(), x, k.key(p.e), s.bad) {
				continue
			}
			k.size(s, &k.most)
			d, out, bad := p.d, []rune{}, ""
			for _, l := range s.out {
				if l < 'A' || l > 'Z' {
					bad = fmt.Sprintf("%q is not a letter", l)
					break
				}
				r := k.char(k.dec, d, l)
				if r.bad != "" || r.err || r.mark {
					bad = fmt.Sprintf("%s fails at %c %s", k.dec.Name(), l, r.bad)
					break
				}
				out = append(out, r.out...)
				d = r.next
				decs[k.key(d)] = d
				k.texts = append(k.texts, d)
			}
			if !c.Ob(bad == "" && string(out) == string(x), "round-trip", "decoder", k.dec.Pos(), "%q is written as %q, which is read as %q (%s; coder state %s, decoder state %s)", x, string(s.out), string(out), bad, k.key(p.e), k.key(p.d)) {
				continue
			}
			if !push(s.next, d) {
				reset()
				goto again
			}
		}
		// everything else is refused
		s := k.run(k.enc, p.e, func(st *State, args []*Term) {
			v := mkSym(OSym, "other character", types.Typ[types.Rune], &SymInfo{Kind: "param", What: "other character"})
			for x := range plain {
				st.assume(mkEqInt(v, mkInt(int64(x))), false)
				st.assume(mkEqInt(v, mkInt(int64(unicode.ToLower(x)))), false)
			}
			st.assume(mkEqInt(v, mkInt(int64(special(tabs)))), false)
			st.assume(mkLe(mkInt(0), v), true)
			if isPtr(args[1].typ) {
				st.heap[args[1]] = v
				st.dirty[args[1]] = true
			}
		}, true)
		c.Ob(s.bad == "" && s.err, "refuses-unknown", k.enc.Name(), k.enc.Pos(), "%s may accept a character that is in no table (state %s, writes %q)", k.enc.Name(), k.key(p.e), string(s.out))
		s = k.char(k.enc, p.e, special(tabs))
		c.Ob(s.bad == "" && s.err, "refuses-unknown", k.enc.Name()+" special", k.enc.Pos(), "%s may accept the mark of the control columns as a character", k.enc.Name())
		// change of key and padding
		k.controls(p.e, p.d, tabs, &announced)
	}
	k.count(len(pairs))
}

func (k *coder) count(pairs int) {
	k.c.count("pairs of coder states", pairs)
	k.c.count("abstract runs of the coder and decoder", k.runs)
}

// controls follows the other functions that write coding.
func (k *coder) controls(enc, dec []*Term, tabs []*gval, announced *[][]*Term) {
	c := k.c
	for f := range k.reach(c.fn("", "Message.Encipher")) {
		sig := f.Signature
		if f == k.enc || sig.Recv() == nil || !types.Identical(pointeeType(sig.Recv().Type()), k.state) || sig.Params().Len() != 2 || !isRunesPtr(sig.Params().At(1).Type()) {
			continue
		}
		first := sig.Params().At(0).Type()
		switch {
		case isPtr(first) && isModType(c.P, pointeeType(first), "Key"):
			s := k.run(f, enc, nil, false)
			if !c.Ob(s.bad == "" && !s.err && s.mark && len(s.out) > 0 && s.out[len(s.out)-1] == keyMark, "key-change", f.Name(), f.Pos(), "%s does not write the announcement of a key and then its id (%q) %s", f.Name(), string(s.out), s.bad) {
				continue
			}
			k.size(s, &k.mostMark)
			d := dec
			for _, l := range s.out[:len(s.out)-1] {
				r := k.char(k.dec, d, l)
				if !c.Ob(r.bad == "" && !r.err && len(r.out) == 0 && l != keyMark, "key-change", "announce", f.Pos(), "the announcement %q of %s is not read as one %s", string(s.out), f.Name(), r.bad) {
					return
				}
				d = r.next
				k.texts = append(k.texts, d)
			}
			// all letters of the id are taken for the id
			before := k.key(d)
			var in []*Term
			for round := 0; round < 2; round++ {
				for l := 'A'; l <= 'Z'; l++ {
					r := k.char(k.dec, d, l)
					ok := r.bad == "" && !r.err && len(r.out) == 0 && (in == nil || k.key(r.next) == k.key(in))
					if !c.Ob(ok, "key-change", "id", k.dec.Pos(), "the letter %c of the id of the next key is not read as a part of the id (state %s) %s", l, before, r.bad) {
						return
					}
					in = r.next
				}
				d = in
			}
			*announced = append(*announced, in)
			k.ins = append(k.ins, in)
		case isInt(first) && c.callsDirectly("", "Message.Encipher", f):
			// padding: any number of letters which are read as nothing
			k.padding(f, enc, dec)
		}
	}
}

// callsDirectly: the function calls f itself.
func (c *Ctx) callsDirectly(rel, name string, f *ssa.Function) bool {
	ok := false
	callsOf(c.fn(rel, name), func(ci ssa.CallInstruction) { ok = ok || ci.Common().StaticCallee() == f })
	return ok
}

func (k *coder) padding(f *ssa.Function, enc, dec []*Term) {
	c := k.c
	// what one letter of padding is: every letter the function may append
	letters := map[rune]bool{}
	bad := false
	e := k.e0()
	e.unrollMax, e.unrollAny = 0, 0
	e.h = Hooks{Const: k.g.memory, Append: func(e *Engine, st *State, base *Term, elems []*Term, spread, res *Term, in ssa.Instruction) {
		if res == nil || !isRune(elemType(res.typ)) {
			return
		}
		bad = bad || spread != nil
		for _, x := range elems {
			i, ok := x.intVal()
			bad = bad || !ok
			letters[rune(i)] = true
		}
	}}
	e.Run(f, func(st *State, args []*Term) {
		k.g.assume(st)
		for i, fl := range k.fields() {
			if v := enc[i]; v != nil && !k.wide[fl.Name()] {
				a := mkField(args[0], k.state, i)
				st.heap[a] = v
				st.dirty[a] = true
			}
		}
	})
	e.unrollMax, e.unrollAny = 64, 64
	if !c.Ob(!bad && len(letters) > 0, "padding", f.Name(), f.Pos(), "%s may append something unknown", f.Name()) {
		return
	}
	seen := map[string]bool{}
	queue := [][]*Term{dec}
	for len(queue) > 0 && len(seen) < 50 {
		d := queue[0]
		queue = queue[1:]
		if seen[k.key(d)] {
			continue
		}
		seen[k.key(d)] = true
		for l := range letters {
			if !c.Ob(l >= 'A' && l <= 'Z', "padding", f.Name()+" letter", f.Pos(), "%s appends %q, which is not a letter", f.Name(), l) {
				continue
			}
			r := k.char(k.dec, d, l)
			if c.Ob(r.bad == "" && !r.err && len(r.out) == 0, "padding", f.Name()+" read", f.Pos(), "padding with %c is read as text (%q) %s", l, string(r.out), r.bad) {
				queue = append(queue, r.next)
			}
		}
	}
}

func callsOf(f *ssa.Function, do func(ci ssa.CallInstruction)) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok {
				do(ci)
			}
		}
	}
}
