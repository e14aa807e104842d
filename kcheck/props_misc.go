package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C16", Run: checkC16, Explain: "Whole-module scan of every call that creates a file or changes its mode, with an interprocedural constant evaluation of the mode (through parameters, variables and constants). Rule: the mode gives nothing to group and others; functions of libraries that create files with a wide mode (os.Create, writing a PDF to a named file) are not used, neither called nor passed on as values.",
		Assume: []string{"os.CreateTemp makes files with mode 0600"}})
	register(&Check{ID: "C25", Run: checkC25, Explain: "Lock typestate and shared-state analysis of the package of random numbers: abstract interpretation of each of its functions over all paths. Rules: every path, a panicking one included, gives back each lock it has taken, and takes none twice; memory reachable from package variables or from the receiver that is ever written after initialisation is only touched while the lock is held; the lock is the same one for all goroutines (not a copy); methods of math/rand that keep state are not used without the lock.",
		Assume: []string{"crypto/rand.Reader may be used concurrently"}})
	register(&Check{ID: "C26", Run: checkC26, Explain: "The module is loaded and type-checked (bodies included) once for each supported operating system and processor (those the Makefile builds for, and 32-bit ones), with the build constraints of the two; the value of the line break of both packages is compared with the one of the system.",
		Assume: []string{"the dependencies in the module cache are the ones used"}})
}

// consts evaluates v to the set of constants it may be; ok is false when it may
// be something else.
type constEval struct {
	p     *Program
	calls map[*ssa.Function][]ssa.CallInstruction
	taken map[*ssa.Function]bool
	gl    map[*ssa.Global][]*ssa.Store
	glBad map[*ssa.Global]bool
}

func newConstEval(p *Program) *constEval {
	ce := &constEval{p: p, calls: map[*ssa.Function][]ssa.CallInstruction{}, taken: map[*ssa.Function]bool{}, gl: map[*ssa.Global][]*ssa.Store{}, glBad: map[*ssa.Global]bool{}}
	fns := append([]*ssa.Function(nil), p.Funcs...)
	for _, sp := range p.SPkg {
		if f := sp.Func("init"); f != nil {
			fns = append(fns, f)
		}
	}
	for _, fn := range fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var callee ssa.Value
				if ci, ok := in.(ssa.CallInstruction); ok {
					callee = ci.Common().Value
					if g := ci.Common().StaticCallee(); g != nil {
						ce.calls[g] = append(ce.calls[g], ci)
					}
				}
				var ops [16]*ssa.Value
				for _, o := range in.Operands(ops[:0]) {
					if o == nil || *o == nil {
						continue
					}
					switch v := (*o).(type) {
					case *ssa.Function:
						if *o != callee {
							ce.taken[v] = true
						}
					case *ssa.Global:
						switch x := in.(type) {
						case *ssa.Store:
							if x.Addr == v {
								ce.gl[v] = append(ce.gl[v], x)
							} else {
								ce.glBad[v] = true
							}
						case *ssa.UnOp, *ssa.DebugRef:
						default:
							ce.glBad[v] = true
						}
					}
				}
			}
		}
	}
	return ce
}

func (ce *constEval) eval(v ssa.Value, seen map[ssa.Value]bool) ([]constant.Value, bool) {
	if seen[v] {
		return nil, true
	}
	if seen == nil {
		seen = map[ssa.Value]bool{}
	}
	seen[v] = true
	defer delete(seen, v)
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return nil, false
		}
		return []constant.Value{x.Value}, true
	case *ssa.Convert:
		return ce.eval(x.X, seen)
	case *ssa.ChangeType:
		return ce.eval(x.X, seen)
	case *ssa.Phi:
		var l []constant.Value
		for _, e := range x.Edges {
			m, ok := ce.eval(e, seen)
			if !ok {
				return nil, false
			}
			l = append(l, m...)
		}
		return l, true
	case *ssa.BinOp:
		a, ok1 := ce.eval(x.X, seen)
		b, ok2 := ce.eval(x.Y, seen)
		if !ok1 || !ok2 || len(a)*len(b) > 64 {
			return nil, false
		}
		var l []constant.Value
		for _, p := range a {
			for _, q := range b {
				switch x.Op {
				case token.ADD, token.SUB, token.MUL, token.AND, token.OR, token.XOR, token.AND_NOT:
					l = append(l, constant.BinaryOp(p, x.Op, q))
				default:
					return nil, false
				}
			}
		}
		return l, true
	case *ssa.Parameter:
		fn := x.Parent()
		if ce.taken[fn] || len(ce.calls[fn]) == 0 {
			return nil, false
		}
		if o := fn.Object(); o != nil && o.Exported() && fn.Pkg != nil && fn.Pkg.Pkg.Name() != "main" {
			return nil, false
		}
		i := -1
		for k, p := range fn.Params {
			if p == x {
				i = k
			}
		}
		var l []constant.Value
		for _, c := range ce.calls[fn] {
			if i < 0 || i >= len(c.Common().Args) {
				return nil, false
			}
			m, ok := ce.eval(c.Common().Args[i], seen)
			if !ok {
				return nil, false
			}
			l = append(l, m...)
		}
		return l, true
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return nil, false
		}
		switch a := x.X.(type) {
		case *ssa.Global:
			if ce.glBad[a] || len(ce.gl[a]) == 0 || !ce.p.InModulePkg(a.Pkg) {
				return nil, false
			}
			if a.Object() != nil && a.Object().Exported() && a.Pkg.Pkg.Name() != "main" {
				return nil, false
			}
			var l []constant.Value
			for _, s := range ce.gl[a] {
				m, ok := ce.eval(s.Val, seen)
				if !ok {
					return nil, false
				}
				l = append(l, m...)
			}
			return l, true
		case *ssa.Alloc:
			var l []constant.Value
			for _, r := range *a.Referrers() {
				switch r := r.(type) {
				case *ssa.Store:
					if r.Addr != a {
						return nil, false
					}
					m, ok := ce.eval(r.Val, seen)
					if !ok {
						return nil, false
					}
					l = append(l, m...)
				case *ssa.UnOp, *ssa.DebugRef:
				default:
					return nil, false
				}
			}
			return l, len(l) > 0
		}
		return nil, false
	case *ssa.Call:
		f := x.Common().StaticCallee()
		if f == nil || !ce.p.InModule(f) || len(f.Blocks) == 0 {
			return nil, false
		}
		var l []constant.Value
		for _, b := range f.Blocks {
			r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !ok {
				continue
			}
			if len(r.Results) != 1 {
				return nil, false
			}
			m, ok := ce.eval(r.Results[0], seen)
			if !ok {
				return nil, false
			}
			l = append(l, m...)
		}
		return l, true
	}
	return nil, false
}

// ints evaluates to integers.
func (ce *constEval) ints(v ssa.Value) ([]int64, bool) {
	l, ok := ce.eval(v, nil)
	if !ok {
		return nil, false
	}
	var r []int64
	for _, c := range l {
		i, ok := constant.Int64Val(constant.ToInt(c))
		if !ok {
			return nil, false
		}
		r = append(r, i)
	}
	return r, len(r) > 0
}

func (p *Program) InModulePkg(sp *ssa.Package) bool { return sp != nil && inModulePkg(sp.Pkg) }

// functions that make files everyone can read
var wideCreators = map[string]string{
	"os.Create": "creates files with mode 0666",
	"(*github.com/jung-kurt/gofpdf.Fpdf).OutputFileAndClose":    "creates files with mode 0666",
	"(*github.com/jung-kurt/gofpdf.Fpdf).OutputFileAndCloseCtx": "creates files with mode 0666",
	"os.CopyFS": "creates files with the modes of the source",
}

// mode arguments of functions that create files or change modes
var modeArg = map[string]int{
	"os.OpenFile": 2, "os.WriteFile": 2, "io/ioutil.WriteFile": 2, "os.Chmod": 1, "(*os.File).Chmod": 1, "syscall.Open": 2, "syscall.Chmod": 1, "syscall.Fchmod": 1, "syscall.Creat": 1,
	"golang.org/x/sys/unix.Open": 2, "golang.org/x/sys/unix.Chmod": 1, "golang.org/x/sys/unix.Fchmod": 1, "(*os.Root).OpenFile": 2, "(*os.Root).Chmod": 1, "(*os.Root).WriteFile": 2,
}

func checkC16(c *Ctx) {
	ce := newConstEval(c.P)
	n := 0
	// anything may be called or used as a value
	for _, fn := range c.P.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var ops [16]*ssa.Value
				ci, isCall := in.(ssa.CallInstruction)
				for _, o := range in.Operands(ops[:0]) {
					if o == nil || *o == nil {
						continue
					}
					f, ok := (*o).(*ssa.Function)
					if !ok {
						continue
					}
					name := f.String()
					name = strings.TrimSuffix(name, "$bound")
					if strings.HasSuffix(f.Name(), "$bound") && f.Object() != nil {
						if tf, ok := f.Object().(*types.Func); ok {
							name = tf.FullName()
						}
					}
					if w, ok := wideCreators[name]; ok {
						n++
						c.Ob(false, "owner-only", shortName(fn.String())+":"+name, in.Pos(), "%s uses %s, which %s", shortName(fn.String()), shortName(name), w)
						continue
					}
					i, ok := modeArg[name]
					if !ok {
						continue
					}
					n++
					if !isCall || ci.Common().StaticCallee() != f {
						c.Ob(false, "owner-only", shortName(fn.String())+":"+name, in.Pos(), "%s passes %s on, the analysis does not know the mode it is called with", shortName(fn.String()), shortName(name))
						continue
					}
					args := ci.Common().Args
					if i >= len(args) {
						continue
					}
					if strings.HasSuffix(name, "OpenFile") || strings.HasSuffix(name, ".Open") {
						if fl, ok := ce.ints(args[i-1]); ok {
							creates := false
							for _, x := range fl {
								creates = creates || x&oCreate != 0
							}
							if !creates {
								c.Ob(true, "owner-only", shortName(fn.String())+":"+name, in.Pos(), "")
								continue
							}
						}
					}
					ms, ok := ce.ints(args[i])
					if !c.Ob(ok, "owner-only", shortName(fn.String())+":"+name, in.Pos(), "the mode given to %s in %s is not known", shortName(name), shortName(fn.String())) {
						continue
					}
					for _, m := range ms {
						c.Ob(m&0077 == 0, "owner-only", shortName(fn.String())+":"+name, in.Pos(), "%s gives others than the owner access to a file (mode %#o given to %s)", shortName(fn.String()), m, shortName(name))
					}
					c.sample("%s: %s with mode %#o", c.P.Pos(in.Pos()), shortName(name), ms)
				}
			}
		}
	}
	c.count("file_mode_sites", n)
	// printing keys and messages needs a file
	c.Need("owner-only", 3)
}

// ---- supported systems ----

var systems = []struct {
	goos, lineBreak string
	arch            []string // as in the Makefile
}{
	{"linux", "\n", []string{"amd64", "arm64", "arm", "386"}}, {"darwin", "\n", []string{"amd64", "arm64"}}, {"windows", "\r\n", []string{"amd64", "386"}},
	{"freebsd", "\n", []string{"amd64", "arm64"}}, {"netbsd", "\n", []string{"amd64", "arm64"}}, {"openbsd", "\n", []string{"amd64", "arm64"}},
}

func checkC26(c *Ctx) {
	n := 0
	for _, s := range systems {
		for _, arch := range s.arch {
			n++
			c.system(s.goos, arch, s.lineBreak)
		}
	}
	c.Need("type-checks", n)
	c.Need("line-break", 2*n)
}

func (c *Ctx) system(goos, arch, lineBreak string) {
	sys := goos + "/" + arch
	p, err := Load(c.Repo, goos, arch)
	if !c.Ob(err == nil, "type-checks", sys, token.NoPos, "the program does not build for %s: %v", sys, err) {
		return
	}
	c.count("packages_type_checked", len(p.Pkgs))
	for _, rel := range []string{"", "cmd/krypto431"} {
		pk := p.TPkg(rel)
		if pk == nil {
			c.Undecided("package:"+rel, token.NoPos, "package %q not found for %s", rel, sys)
			continue
		}
		o := pk.Types.Scope().Lookup("LineBreak")
		v, ok := "", false
		switch o := o.(type) {
		case *types.Const:
			if o.Val().Kind() == constant.String {
				v, ok = constant.StringVal(o.Val()), true
			}
		case *types.Var:
			v, ok = varString(p, rel, o)
		}
		if !ok {
			c.Undecided("linebreak:"+rel+sys, token.NoPos, "the line break of package %q for %s is not known", rel, sys)
			continue
		}
		c.Ob(v == lineBreak, "line-break", rel+":"+sys, token.NoPos, "the line break of package %s is %q on %s, it should be %q", pk.Name, v, sys, lineBreak)
	}
}

// varString is the constant a variable is initialised with and keeps.
func varString(p *Program, rel string, o *types.Var) (string, bool) {
	sp := p.Pkg(rel)
	g, _ := sp.Members[o.Name()].(*ssa.Global)
	if g == nil {
		return "", false
	}
	ce := newConstEval(p)
	if ce.glBad[g] || len(ce.gl[g]) != 1 {
		return "", false
	}
	l, ok := ce.eval(ce.gl[g][0].Val, nil)
	if !ok || len(l) != 1 || l[0].Kind() != constant.String {
		return "", false
	}
	return constant.StringVal(l[0]), true
}

// ---- locks of the random number package ----

func checkC25(c *Ctx) {
	sp := c.P.Pkg("crand")
	if sp == nil {
		c.Undecided("package:crand", token.NoPos, "package crand not found")
		return
	}
	// fields and variables written after initialisation
	writtenField := map[string]bool{}
	writtenGlobal := map[*ssa.Global]bool{}
	var fns []*ssa.Function
	for _, f := range c.P.Funcs {
		top := f
		for top.Parent() != nil {
			top = top.Parent()
		}
		if top.Pkg == sp {
			fns = append(fns, f)
		}
	}
	for _, f := range fns {
		if f.Name() == "init" || strings.HasPrefix(f.Name(), "init#") {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					switch a := st.Addr.(type) {
					case *ssa.FieldAddr:
						if _, local := a.X.(*ssa.Alloc); !local {
							writtenField[fieldKey(a)] = true
						}
					case *ssa.Global:
						writtenGlobal[a] = true
					}
				}
			}
		}
	}
	lockName := func(cl *Call) (string, *Term) {
		n := cl.full()
		switch n {
		case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).RLock":
			return "lock", cl.Args[0]
		case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RUnlock":
			return "unlock", cl.Args[0]
		case "(*sync.Mutex).TryLock", "(*sync.RWMutex).TryLock", "(*sync.RWMutex).TryRLock":
			return "try", cl.Args[0]
		case "invoke:(sync.Locker).Lock":
			return "lock", cl.Args[0]
		case "invoke:(sync.Locker).Unlock":
			return "unlock", cl.Args[0]
		}
		return "", nil
	}
	// locks tells which locks are held for certain
	locks := func(st *State) map[string]bool {
		r := map[string]bool{}
		for t := range st.must {
			if t.op == OTag && t.name == "held" {
				r[memName(t.args[0])] = true
			}
		}
		return r
	}
	heldAny := func(st *State) bool { return len(locks(st)) > 0 }
	// the locks common to all places that touch a piece of shared memory
	lockset := map[string]map[string]bool{}
	for _, fn := range fns {
		if fn.Parent() != nil || fn.Synthetic != "" || !entryOfSource(fn) {
			continue
		}
		// shared tells whether memory may be seen by other goroutines and be
		// written by them
		var shared func(a *Term) bool
		shared = func(a *Term) bool {
			for i := 0; a != nil && i < 20; i++ {
				switch a.op {
				case OGlobal:
					g, _ := a.obj.(*ssa.Global)
					if g == nil || g.Pkg != sp {
						return false
					}
					t := g.Type().Underlying().(*types.Pointer).Elem()
					if writtenGlobal[g] {
						return true
					}
					switch t.Underlying().(type) {
					case *types.Array, *types.Map:
						return true
					}
					return false
				case OInit:
					// what a field or variable refers to
					src := a.args[0]
					switch a.typ.Underlying().(type) {
					case *types.Slice, *types.Map:
						return rootShared(src, sp)
					case *types.Pointer:
						return rootShared(src, sp)
					}
					return false
				case OField:
					if writtenField[addrFieldKey(a)] && rootShared(a, sp) {
						return true
					}
					if t := pointee(a); t != nil {
						switch t.Underlying().(type) {
						case *types.Array, *types.Map:
							return rootShared(a, sp)
						}
					}
					a = a.args[0]
				case OIndex:
					a = a.args[0]
				default:
					return false
				}
			}
			return false
		}
		touch := func(st *State, a *Term, pos token.Pos) {
			if a == nil || !shared(a) {
				return
			}
			ls := locks(st)
			if !c.Ob(len(ls) > 0, "shared-under-lock", shortName(fn.String()), pos, "%s touches %s, which other goroutines use too, without holding the lock", shortName(fn.String()), a) {
				return
			}
			m := memName(a)
			if old, ok := lockset[m]; ok {
				for l := range old {
					if !ls[l] {
						delete(old, l)
					}
				}
				c.Ob(len(old) > 0, "shared-under-lock", shortName(fn.String()), pos, "%s touches %s under another lock than the rest of the package", shortName(fn.String()), a)
			} else {
				lockset[m] = ls
			}
		}
		e := c.NewEngine(Hooks{
			Ess:    essAll,
			EssTag: func(t *Term) bool { return t.name == "held" },
			Call: func(e *Engine, st *State, cl *Call) ([]CallOut, bool) {
				k, l := lockName(cl)
				if k != "" {
					c.count("lock_operations", 1)
					root := l
					for root.op == OField || root.op == OIndex {
						root = root.args[0]
					}
					c.Ob(root.op != OAlloc, "same-lock", shortName(fn.String()), cl.Pos, "%s uses a copy of the lock", shortName(fn.String()))
					h := mkTag("held", l)
					switch k {
					case "lock":
						c.Ob(!st.mayTag(h), "lock-once", shortName(fn.String()), cl.Pos, "%s may take the lock while it holds it, which blocks for ever", shortName(fn.String()))
						setTag(st, h, true)
					case "unlock":
						c.Ob(st.hasTag(h), "lock-once", shortName(fn.String()), cl.Pos, "%s may release the lock without holding it", shortName(fn.String()))
						setTag(st, h, false)
					case "try":
						yes := st.clone()
						setTag(yes, h, true)
						return []CallOut{{St: yes, Val: mkBool(true)}, {St: st, Val: mkBool(false)}}, true
					}
					return []CallOut{{St: st, Val: mkTuple(nil)}}, true
				}
				n := cl.full()
				if strings.HasPrefix(n, "(*math/rand.Rand).") || strings.HasPrefix(n, "(*math/rand/v2.Rand).") {
					switch cl.Fn.Name() {
					case "Read", "Seed":
						c.Ob(heldAny(st), "shared-under-lock", shortName(fn.String())+":rand", cl.Pos, "%s uses %s, which changes state shared by all goroutines, without holding the lock", shortName(fn.String()), shortName(n))
					default:
						// calls the source, which takes the lock
						for t := range st.may {
							if t.op == OTag && t.name == "held" {
								c.Ob(false, "lock-once", shortName(fn.String())+":rand", cl.Pos, "%s calls %s while it holds the lock the source of random numbers takes", shortName(fn.String()), shortName(n))
							}
						}
					}
					return nil, false
				}
				if cl.Fn != nil && c.P.InModule(cl.Fn) || strings.HasPrefix(n, "sync/atomic") || strings.HasPrefix(n, "(*sync/atomic") || strings.HasPrefix(n, "(*sync.") {
					return nil, false
				}
				if strings.HasPrefix(n, "math/rand.New") {
					return nil, false
				}
				for _, a := range cl.Args {
					a = unwrap(a)
					if a != nil && (isPtr(a.typ) || isSlice(a.typ)) {
						touch(st, a, cl.Pos)
					}
				}
				return nil, false
			},
			Load: func(e *Engine, st *State, addr, val *Term, in ssa.Instruction) { touch(st, addr, in.Pos()) },
			Store: func(e *Engine, st *State, addr, val *Term, in ssa.Instruction) {
				touch(st, addr, in.Pos())
			},
			Slice: func(e *Engine, st *State, base, lo, hi *Term, in ssa.Instruction) {},
		})
		e.keepPanics = true
		outs := e.Run(fn, nil)
		for _, o := range outs {
			free := true
			for t := range o.st.may {
				if t.op == OTag && t.name == "held" {
					free = false
				}
			}
			c.Ob(free, "releases-lock", shortName(fn.String()), fn.Pos(), "%s may end (%s) without releasing the lock: every later draw of a random number blocks", shortName(fn.String()), map[string]string{"ret": "return", "panic": "by a panic", "exit": "exit"}[o.kind])
		}
	}
	c.Need("releases-lock", 8)
}

// entryOfSource: functions that are called from outside of the package,
// directly or through the interface of a source of random numbers.
func entryOfSource(fn *ssa.Function) bool {
	if fn.Signature.Recv() != nil {
		switch fn.Name() {
		case "Int63", "Uint64", "Seed":
			return true
		}
		n := namedOf(fn.Signature.Recv().Type())
		return n != nil && n.Obj().Exported() && token.IsExported(fn.Name())
	}
	return token.IsExported(fn.Name())
}

// memName names memory independently of the object it belongs to: variables by
// their name, fields by their type, what they refer to by the reference.
func memName(a *Term) string {
	if a == nil {
		return "?"
	}
	switch a.op {
	case OGlobal:
		return a.String()
	case OField:
		if k := addrFieldKey(a); k != "" {
			return k
		}
	case OInit:
		return "*" + memName(a.args[0])
	case OIndex:
		return memName(a.args[0]) + "[]"
	case OFieldVal:
		if len(a.args) == 1 && namedOf(a.args[0].typ) != nil {
			return "*" + typeName(a.args[0].typ) + "#" + a.name
		}
	}
	return a.String()
}

func fieldKey(a *ssa.FieldAddr) string {
	t := a.X.Type().Underlying().(*types.Pointer).Elem()
	return typeName(t) + "#" + t.Underlying().(*types.Struct).Field(a.Field).Name()
}

func addrFieldKey(a *Term) string {
	f := a.field()
	if f == nil {
		return ""
	}
	return typeName(f.st) + "#" + f.st.Underlying().(*types.Struct).Field(f.idx).Name()
}

// rootShared: the address is inside a package variable or behind a receiver or
// parameter of a module type.
func rootShared(a *Term, sp *ssa.Package) bool {
	for i := 0; a != nil && i < 20; i++ {
		switch a.op {
		case OGlobal:
			g, _ := a.obj.(*ssa.Global)
			return g != nil && g.Pkg == sp
		case OField, OIndex, OInit:
			a = a.args[0]
		case OSym:
			return isParamSym(a) && a.typ != nil && (namedOf(a.typ) != nil && inModulePkg(namedOf(a.typ).Obj().Pkg()))
		default:
			return false
		}
	}
	return false
}
