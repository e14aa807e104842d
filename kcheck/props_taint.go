package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C24: no secret in a diagnostic ----

func init() {
	register(&Check{ID: "C24", Run: checkC24,
		Explain: "Taint analysis over the SSA of the whole module, interprocedural with summaries per function (which parameters reach a result, what another parameter points to, a field or a diagnostic). Secrets are the letters of a key, plain text, binary and radiogram of a message, encoded text, the persistence key, typed and given passwords, salts and keys, every parameter that becomes one of these, and any record that has one of these when it is formatted as a whole. Taint follows slices, elements, conversions, concatenations, formatting, copies and builders; lengths and comparisons carry none. Rule: at every call that makes an error, writes to standard error or a log, panics, or asks a question on the terminal, no argument carries a secret.",
		Assume:  []string{"errors made by libraries do not quote the secret they were given", "the text that is looked up as a key id (the first group of a message) is not a secret: on the air it is sent in clear"}})
}

type taint struct {
	params uint64
	src    string
}

func (t taint) none() bool { return t.params == 0 && t.src == "" }

func (t taint) or(u taint) taint {
	t.params |= u.params
	if t.src == "" {
		t.src = u.src
	}
	return t
}

type tsink struct {
	what string
	pos  token.Pos
}

type tsummary struct {
	results []taint
	outs    map[int]taint   // what a parameter points to gets
	fields  map[string]bool // "param/field": the parameter is stored there
	sinks   map[int]tsink   // the parameter gets into a diagnostic
	secret  map[int]string  // the parameter becomes a key, a salt or a password
}

type taintAnalysis struct {
	c       *Ctx
	secrets map[string]string // Type.Field -> name
	records map[string]bool   // types whose other fields are known not to be secret
	fields  map[string]string // fields of other types
	globals map[*ssa.Global]taint
	sums    map[*ssa.Function]*tsummary
	vals    map[ssa.Value]taint
	unit    *ssa.Function
	more    bool
	report  bool
	n       int
}

func checkC24(c *Ctx) {
	a := &taintAnalysis{c: c, fields: map[string]string{}, globals: map[*ssa.Global]taint{}, sums: map[*ssa.Function]*tsummary{}, vals: map[ssa.Value]taint{},
		secrets: map[string]string{"Key.Runes": "the letters of a key", "Message.PlainText": "the plain text of a message", "Message.Binary": "the content of a message", "Message.Radiogram": "the radiogram", "chunk.encodedText": "the encoded text of a message", "Krypto431.persistenceKey": "the persistence key", "Krypto431.salt": "the salt"},
		records: map[string]bool{"Key": true, "Message": true, "Krypto431": true, "chunk": true}}
	for f := range a.secrets {
		i := strings.IndexByte(f, '.')
		if _, s := c.P.Struct("", f[:i]); fieldIndex(s, f[i+1:]) < 0 {
			c.Undecided("diagnostics", token.NoPos, "there is no %s any more", f)
		}
	}
	var units []*ssa.Function
	for _, fn := range c.P.Funcs {
		if fn.Parent() == nil && len(fn.Blocks) > 0 {
			units = append(units, fn)
		}
	}
	for a.more = true; a.more; {
		a.more = false
		for _, fn := range units {
			a.function(fn)
		}
	}
	a.report = true
	for _, fn := range units {
		a.function(fn)
	}
	c.count("functions", len(units))
	c.count("values", len(a.vals))
	c.Need("diagnostics", 100)
}

func (a *taintAnalysis) sum(fn *ssa.Function) *tsummary {
	s := a.sums[fn]
	if s == nil {
		s = &tsummary{results: make([]taint, fn.Signature.Results().Len()), outs: map[int]taint{}, fields: map[string]bool{}, sinks: map[int]tsink{}, secret: map[int]string{}}
		a.sums[fn] = s
	}
	return s
}

func (a *taintAnalysis) set(v ssa.Value, t taint) {
	if v == nil {
		return
	}
	switch x := v.(type) {
	case *ssa.Const, *ssa.Function, *ssa.Builtin:
		return
	case *ssa.Global:
		old := a.globals[x]
		t.params = 0
		if n := old.or(t); n != old {
			a.globals[x] = n
			a.more = true
		}
		return
	}
	old := a.vals[v]
	if n := old.or(t); n != old {
		a.vals[v] = n
		a.more = true
	}
}

func (a *taintAnalysis) get(v ssa.Value) taint {
	switch x := v.(type) {
	case *ssa.Global:
		return a.globals[x]
	case nil:
		return taint{}
	}
	return a.vals[v]
}

func recField(t types.Type, i int) (rec, key string) {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return "", ""
	}
	n := typeName(t)
	if nt, ok := t.(*types.Named); ok {
		rec = nt.Obj().Name()
		if !inModulePkg(nt.Obj().Pkg()) {
			rec = ""
		}
	}
	return rec, n + "." + s.Field(i).Name()
}

// field: what a field holds, given what its record carries.
func (a *taintAnalysis) field(x ssa.Value, i int) taint {
	rec, key := recField(x.Type(), i)
	if rec != "" && a.records[rec] {
		s := structOf(x.Type())
		if what, ok := a.secrets[rec+"."+s.Field(i).Name()]; ok {
			return taint{src: what}
		}
		return taint{}
	}
	t := taint{params: a.get(x).params, src: a.fields[key]}
	return t
}

// toField: t is stored in a field.
func (a *taintAnalysis) toField(base ssa.Value, i int, t taint) {
	rec, key := recField(base.Type(), i)
	if rec != "" && a.records[rec] {
		if rec == "Krypto431" {
			a.becomes(t, a.secrets[rec+"."+structOf(base.Type()).Field(i).Name()])
		}
		return
	}
	if t.src != "" && a.fields[key] == "" {
		a.fields[key] = t.src
		a.more = true
	}
	if t.params != 0 {
		s := a.sum(a.unit)
		for j := 0; j < 64; j++ {
			k := fmt.Sprintf("%d/%s", j, key)
			if t.params&(1<<uint(j)) != 0 && !s.fields[k] {
				s.fields[k] = true
				a.more = true
			}
		}
		a.into(base, taint{params: t.params})
	}
}

// becomes: t is used as the secret what, so the parameters it comes from are
// given that secret.
func (a *taintAnalysis) becomes(t taint, what string) {
	if what == "" || t.params == 0 {
		return
	}
	s := a.sum(a.unit)
	for j, p := range a.unit.Params {
		if j < 64 && t.params&(1<<uint(j)) != 0 && textual(p.Type()) && s.secret[j] == "" {
			s.secret[j] = what
			a.more = true
		}
	}
}

// textual: strings, bytes and pointers to them.
func textual(t types.Type) bool {
	if p := pointeeType(t); p != nil && isPtr(t) {
		t = p
	}
	switch x := t.Underlying().(type) {
	case *types.Basic:
		return x.Info()&types.IsString != 0
	case *types.Slice:
		b, ok := x.Elem().Underlying().(*types.Basic)
		return ok && b.Kind() == types.Uint8
	}
	return false
}

// into: what addr points to gets t.
func (a *taintAnalysis) into(addr ssa.Value, t taint) {
	if t.none() {
		return
	}
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if v == nil || seen[v] {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.FieldAddr:
			a.toField(x.X, x.Field, t)
		case *ssa.IndexAddr:
			walk(x.X)
		case *ssa.UnOp:
			a.set(v, t)
			walk(x.X)
		case *ssa.Slice:
			a.set(v, t)
			walk(x.X)
		case *ssa.Convert:
			walk(x.X)
		case *ssa.ChangeType:
			walk(x.X)
		case *ssa.MakeInterface:
			a.set(v, t)
			walk(x.X)
		case *ssa.Phi:
			a.set(v, t)
			for _, e := range x.Edges {
				walk(e)
			}
		case *ssa.Parameter:
			a.set(v, t)
			a.out(x, t)
		default:
			a.set(v, t)
		}
	}
	walk(addr)
}

func (a *taintAnalysis) out(p *ssa.Parameter, t taint) {
	if p.Parent() != a.unit {
		return
	}
	for i, q := range a.unit.Params {
		if p != q {
			continue
		}
		t.params &^= 1 << uint(i%64)
		s := a.sum(a.unit)
		if n := s.outs[i].or(t); n != s.outs[i] {
			s.outs[i] = n
			a.more = true
		}
	}
}

func (a *taintAnalysis) function(fn *ssa.Function) {
	a.unit = fn
	for i, p := range fn.Params {
		if i < 64 && carries(p.Type()) && !a.notSecret(fn, p) {
			a.set(p, taint{params: 1 << uint(i)})
		}
		if i == 1 && a.c.P.InModule(fn) && fn.Signature.Recv() != nil && fn.Name() == "ParseRadiogram" {
			a.set(p, taint{src: "the text of a message"})
		}
		if what := a.sum(fn).secret[i]; what != "" {
			a.set(p, taint{src: what})
		}
	}
	var all func(f *ssa.Function)
	all = func(f *ssa.Function) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				a.instr(f, in)
			}
		}
		for _, g := range f.AnonFuncs {
			all(g)
		}
	}
	all(fn)
}

// notSecret: what is looked up as a key id was (or will be) sent in clear. Of
// what a message is made from only the first part is its text.
func (a *taintAnalysis) notSecret(fn *ssa.Function, p *ssa.Parameter) bool {
	switch {
	case len(fn.Params) < 2 || p != fn.Params[1] || fn.Signature.Recv() == nil:
		return false
	case fn.Name() == "GetKey" || fn.Name() == "MarkKeyUsed" || fn.Name() == "NewTextMessage":
		return a.c.P.InModule(fn)
	}
	return false
}

// carries: values of this type can have a secret in them.
func carries(t types.Type) bool {
	switch x := t.Underlying().(type) {
	case *types.Basic:
		return x.Info()&types.IsString != 0 || x.Kind() == types.Int32 || x.Kind() == types.Uint8 || x.Kind() == types.UnsafePointer
	case *types.Signature, *types.Chan:
		return false
	case *types.Interface:
		return !types.Identical(t, types.Universe.Lookup("error").Type())
	}
	return true
}

// whole: formatting a value of this type prints a secret.
func (a *taintAnalysis) whole(t types.Type, depth int) string {
	if m := methodOf(a.c.P, t, "Error", "String", "GoString"); m != nil {
		if s := a.sums[m]; s != nil && len(s.results) == 1 && s.results[0].src != "" {
			return s.results[0].src
		}
		return ""
	}
	switch x := t.Underlying().(type) {
	case *types.Pointer:
		if depth == 0 {
			return a.whole(x.Elem(), 1)
		}
	case *types.Slice:
		return a.whole(x.Elem(), depth+1)
	case *types.Array:
		return a.whole(x.Elem(), depth+1)
	case *types.Map:
		return a.whole(x.Elem(), depth+1)
	case *types.Struct:
		for i := 0; i < x.NumFields(); i++ {
			if rec, key := recField(t, i); rec != "" && a.records[rec] {
				if what, ok := a.secrets[rec+"."+x.Field(i).Name()]; ok && !isPtr(x.Field(i).Type()) {
					return what
				}
			} else if what := a.fields[key]; what != "" {
				return what
			}
			if what := a.whole(x.Field(i).Type(), depth+1); what != "" {
				return what
			}
		}
	}
	return ""
}

func methodOf(p *Program, t types.Type, names ...string) *ssa.Function {
	if _, ok := t.Underlying().(*types.Interface); ok {
		return nil
	}
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		for _, n := range names {
			if ms.At(i).Obj().Name() == n {
				if f, ok := ms.At(i).Obj().(*types.Func); ok && f.Type().(*types.Signature).Params().Len() == 0 {
					if g := p.SSA.FuncValue(f); g != nil {
						return g
					}
				}
			}
		}
	}
	return nil
}

func (a *taintAnalysis) instr(f *ssa.Function, in ssa.Instruction) {
	switch x := in.(type) {
	case *ssa.Store:
		if carries(x.Val.Type()) {
			a.into(x.Addr, a.get(x.Val))
		}
		if what := promptField(x.Addr); what != "" {
			a.sink(x.Val, what, x.Pos(), f)
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			a.set(x, a.get(x.X))
		} else if x.Op != token.NOT {
			a.set(x, a.get(x.X))
		}
	case *ssa.FieldAddr:
		a.set(x, a.field(x.X, x.Field))
	case *ssa.Field:
		a.set(x, a.field(x.X, x.Field))
	case *ssa.IndexAddr:
		a.set(x, a.get(x.X))
		// the first argument is the text, the second is the id of a key
		if p, ok := x.X.(*ssa.Parameter); ok && p.Parent() == a.unit && a.unit.Name() == "NewTextMessage" && len(a.unit.Params) > 1 && p == a.unit.Params[1] {
			if n, ok := constInt(x.Index); ok && n == 0 {
				a.set(x, taint{src: "the text of a message"})
			}
		}
	case *ssa.Index:
		a.set(x, a.get(x.X))
	case *ssa.Lookup:
		a.set(x, a.get(x.X))
	case *ssa.MapUpdate:
		a.into(x.Map, a.get(x.Value).or(a.get(x.Key)))
	case *ssa.Slice:
		a.set(x, a.get(x.X))
	case *ssa.Convert:
		a.set(x, a.get(x.X))
	case *ssa.ChangeType:
		a.set(x, a.get(x.X))
	case *ssa.ChangeInterface:
		a.set(x, a.get(x.X))
	case *ssa.SliceToArrayPointer:
		a.set(x, a.get(x.X))
	case *ssa.TypeAssert:
		a.set(x, a.get(x.X))
	case *ssa.MakeInterface:
		t := a.get(x.X)
		if what := a.whole(x.X.Type(), 0); what != "" {
			t = t.or(taint{src: what})
		}
		if types.Identical(x.Type(), types.Universe.Lookup("error").Type()) {
			a.sinkT(t, "an error", x.Pos(), f)
			return
		}
		a.set(x, t)
	case *ssa.BinOp:
		switch x.Op {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		default:
			a.set(x, a.get(x.X).or(a.get(x.Y)))
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			a.set(x, a.get(e))
		}
	case *ssa.Range:
		a.set(x, a.get(x.X))
	case *ssa.Next:
		a.set(x, a.get(x.Iter))
	case *ssa.Extract:
		if n, ok := x.Tuple.(*ssa.Next); ok && (x.Index == 0 || x.Index == 1 && n.IsString) {
			return
		}
		if c, ok := x.Tuple.(*ssa.Call); ok {
			if rs, ok := a.results(c.Common()); ok {
				a.set(x, rs[x.Index])
				return
			}
		}
		if carries(x.Type()) {
			a.set(x, a.get(x.Tuple))
		}
	case *ssa.MakeClosure:
		g := x.Fn.(*ssa.Function)
		for i, v := range g.FreeVars {
			a.set(v, a.get(x.Bindings[i]))
			if t := a.vals[v]; !t.none() {
				a.into(x.Bindings[i], t)
			}
		}
	case *ssa.Return:
		if f == a.unit {
			s := a.sum(f)
			for i, v := range x.Results {
				if !carries(v.Type()) {
					continue
				}
				if n := s.results[i].or(a.get(v)); n != s.results[i] {
					s.results[i] = n
					a.more = true
				}
			}
		}
	case *ssa.Panic:
		a.sink(x.X, "a panic", x.Pos(), f)
	case ssa.CallInstruction:
		a.call(f, x)
	}
}

// promptField: the address is a text a prompt shows.
func promptField(addr ssa.Value) string {
	fa, ok := addr.(*ssa.FieldAddr)
	if !ok {
		return ""
	}
	n, ok := pointeeType(fa.X.Type()).(*types.Named)
	if !ok || n.Obj().Pkg() == nil || !strings.Contains(n.Obj().Pkg().Path(), "/survey") {
		return ""
	}
	switch structOf(fa.X.Type()).Field(fa.Field).Name() {
	case "Message", "Default", "Help":
		return "a question"
	}
	return ""
}

func (a *taintAnalysis) sink(v ssa.Value, what string, pos token.Pos, f *ssa.Function) {
	a.sinkT(a.get(v), what, pos, f)
}

func (a *taintAnalysis) sinkT(t taint, what string, pos token.Pos, f *ssa.Function) {
	if a.report {
		name := outermost(f).Name()
		a.c.Ob(t.src == "", "diagnostics", name, pos, "%s may get into %s made in %s", t.src, what, name)
	}
	s := a.sum(a.unit)
	for j := 0; j < 64 && j < len(a.unit.Params); j++ {
		if t.params&(1<<uint(j)) != 0 {
			if _, ok := s.sinks[j]; !ok {
				s.sinks[j] = tsink{what, pos}
				a.more = true
			}
		}
	}
}

func isStderr(v ssa.Value) bool {
	seen := map[ssa.Value]bool{}
	var is func(v ssa.Value) bool
	is = func(v ssa.Value) bool {
		if v == nil || seen[v] {
			return false
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.UnOp:
			if g, ok := x.X.(*ssa.Global); ok {
				return g.Name() == "Stderr"
			}
		case *ssa.MakeInterface:
			return is(x.X)
		case *ssa.ChangeInterface:
			return is(x.X)
		case *ssa.Phi:
			for _, e := range x.Edges {
				if is(e) {
					return true
				}
			}
		case *ssa.Parameter, *ssa.FreeVar, *ssa.Field, *ssa.Lookup, *ssa.Index:
			return true // may be
		case *ssa.Call:
			return true
		}
		return false
	}
	return is(v)
}

// results of a call of a function with a summary
func (a *taintAnalysis) results(cc *ssa.CallCommon) ([]taint, bool) {
	g := cc.StaticCallee()
	if g == nil || len(g.Blocks) == 0 || !a.c.P.InModule(g) || g.Parent() != nil {
		return nil, false
	}
	s := a.sum(g)
	out := make([]taint, len(s.results))
	for i, r := range s.results {
		out[i] = a.subst(r, cc.Args)
	}
	return out, true
}

func (a *taintAnalysis) subst(t taint, args []ssa.Value) taint {
	r := taint{src: t.src}
	for j := 0; j < 64 && j < len(args); j++ {
		if t.params&(1<<uint(j)) != 0 {
			r = r.or(a.get(args[j]))
		}
	}
	return r
}

// external functions whose text is a diagnostic: the first argument that is
// part of it, and what it is
func sinkCall(name string) (from int, what string) {
	switch {
	case name == "fmt.Errorf" || name == "errors.New":
		return 0, "an error"
	case name == "fmt.Fprintf" || name == "fmt.Fprintln" || name == "fmt.Fprint" || name == "io.WriteString":
		return 1, "what is written to standard error"
	case strings.HasPrefix(name, "(*os.File).Write"):
		return 1, "what is written to standard error"
	case strings.HasPrefix(name, "log.Print"), strings.HasPrefix(name, "log.Fatal"), strings.HasPrefix(name, "log.Panic"), name == "log.Output":
		return 0, "the log"
	case strings.HasPrefix(name, "(*log.Logger)."):
		return 1, "the log"
	case strings.HasPrefix(name, "log/slog."), strings.HasPrefix(name, "(*log/slog.Logger)."):
		return 0, "the log"
	case strings.Contains(name, "/cli/") && (strings.HasSuffix(name, ".Exit") || strings.HasSuffix(name, ".NewExitError")):
		return 0, "an error"
	}
	return -1, ""
}

func (a *taintAnalysis) call(f *ssa.Function, in ssa.CallInstruction) {
	cc := in.Common()
	v, _ := in.(ssa.Value)
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append":
			for _, x := range cc.Args {
				a.set(v, a.get(x))
			}
			// the new elements may be where the old ones are
			if t := a.get(v); !t.none() {
				a.into(cc.Args[0], t)
			}
		case "copy":
			a.into(cc.Args[0], a.get(cc.Args[1]))
		case "panic":
			a.sink(cc.Args[0], "a panic", in.Pos(), f)
		case "print", "println":
			for _, x := range cc.Args {
				a.sink(x, "what is written to standard error", in.Pos(), f)
			}
		}
		return
	}
	g := cc.StaticCallee()
	if g != nil && g.Parent() != nil { // a function literal: part of this unit
		for i, p := range g.Params {
			if i < len(cc.Args) && carries(p.Type()) {
				a.set(p, a.get(cc.Args[i]))
				if t := a.vals[p]; !t.none() && pointsTo(p.Type()) {
					a.into(cc.Args[i], t)
				}
			}
		}
		if v != nil {
			for _, b := range g.Blocks {
				if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
					for _, x := range r.Results {
						if carries(x.Type()) {
							a.set(v, a.get(x))
						}
					}
				}
			}
		}
		return
	}
	if g != nil && len(g.Blocks) > 0 && a.c.P.InModule(g) {
		s := a.sum(g)
		for j, k := range s.sinks {
			if j < len(cc.Args) {
				t := a.get(cc.Args[j])
				if a.report {
					name := outermost(f).Name()
					a.c.Ob(t.src == "", "diagnostics", name, in.Pos(), "%s may get into %s made by %s (%s), called in %s", t.src, k.what, g.Name(), a.c.P.Pos(k.pos), name)
				}
				for q := 0; q < 64 && q < len(a.unit.Params); q++ {
					us := a.sum(a.unit)
					if _, ok := us.sinks[q]; !ok && t.params&(1<<uint(q)) != 0 {
						us.sinks[q] = k
						a.more = true
					}
				}
			}
		}
		for j, t := range s.outs {
			if j < len(cc.Args) {
				a.into(cc.Args[j], a.subst(t, cc.Args))
			}
		}
		for k := range s.fields {
			var j int
			var key string
			fmt.Sscanf(k, "%d/", &j)
			key = k[strings.IndexByte(k, '/')+1:]
			if j >= len(cc.Args) {
				continue
			}
			t := a.get(cc.Args[j])
			if t.src != "" && a.fields[key] == "" {
				a.fields[key] = t.src
				a.more = true
			}
			us := a.sum(a.unit)
			for q := 0; q < 64 && q < len(a.unit.Params); q++ {
				if n := fmt.Sprintf("%d/%s", q, key); t.params&(1<<uint(q)) != 0 && !us.fields[n] {
					us.fields[n] = true
					a.more = true
				}
			}
		}
		for j, what := range s.secret {
			if j < len(cc.Args) {
				a.becomes(a.get(cc.Args[j]), what)
			}
		}
		if v != nil {
			if rs, _ := a.results(cc); len(rs) == 1 {
				a.set(v, rs[0])
			}
		}
		return
	}
	name := ""
	args := cc.Args
	if cc.IsInvoke() {
		name = "invoke:(" + typeName(cc.Value.Type()) + ")." + cc.Method.Name()
		args = append([]ssa.Value{cc.Value}, args...)
	} else if g != nil {
		name = g.String()
	}
	if from, what := sinkCall(name); from >= 0 && (from == 0 || !strings.Contains(what, "standard error") || isStderr(args[0])) {
		for _, x := range args[from:] {
			a.sink(x, what, in.Pos(), f)
		}
		if strings.Contains(what, "standard error") && len(args) > 0 {
			if _, ok := args[0].(*ssa.Parameter); !ok {
				return
			}
		} else {
			return
		}
	}
	if strings.HasSuffix(name, "/pbkdf2.Key") && len(args) > 1 {
		a.becomes(a.get(args[0]), "a password")
		a.becomes(a.get(args[1]), "the salt")
	}
	var t taint
	switch {
	case isReadPassword(name):
		t.src = "a typed password"
	case name == "io.ReadAll" || name == "io/ioutil.ReadAll":
		t.src = "the text of a message"
	case strings.Contains(name, "/survey/") && strings.HasSuffix(name, ".AskOne"):
		if m, ok := args[0].(*ssa.MakeInterface); ok && len(args) > 1 {
			switch n := typeName(pointeeType(m.X.Type())); {
			case strings.HasSuffix(n, "Multiline"), strings.HasSuffix(n, "Editor"):
				a.into(args[1], taint{src: "the text of a message"})
			case strings.HasSuffix(n, "Password"):
				a.into(args[1], taint{src: "a typed password"})
			}
		}
		return
	case strings.Contains(name, "/cli/") && strings.HasSuffix(name, "Context).String"):
		if k, ok := args[len(args)-1].(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String {
			switch constant.StringVal(k.Value) {
			case "password", "pfk", "new-pfk", "newpfk", "old", "new", "salt", "new-salt":
				t.src = "a password or key given on the command line"
			}
		}
	default:
		for i, x := range args {
			if i == 0 && cc.IsInvoke() && !carries(x.Type()) {
				continue
			}
			t = t.or(a.get(x))
		}
	}
	if t.none() {
		return
	}
	if v != nil && (carries(v.Type()) || isTuple(v.Type())) {
		a.set(v, t)
	}
	// what is written to through a pointer
	for _, x := range args {
		switch {
		case isPtr(x.Type()) && collects(pointeeType(x.Type())):
			a.into(x, t)
		case isByteSlice(x.Type()) && (strings.HasSuffix(name, "Decode") || strings.HasSuffix(name, "Encode")):
			a.into(x, t)
		}
	}
}

func isTuple(t types.Type) bool {
	_, ok := t.(*types.Tuple)
	return ok
}

func pointsTo(t types.Type) bool { return isPtr(t) || isSlice(t) }

// collects: a variable of this type holds what is written to it.
func collects(t types.Type) bool {
	switch typeName(t) {
	case "strings.Builder", "bytes.Buffer", "text/tabwriter.Writer", "bufio.Writer":
		return true
	}
	switch x := t.Underlying().(type) {
	case *types.Basic:
		return x.Info()&types.IsString != 0
	case *types.Slice:
		return true
	}
	return false
}
