package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C30: success of a library operation means nothing under it failed ----

func init() {
	register(&Check{ID: "C30", Run: checkC30,
		Explain: "Abstract interpretation of every function of the module that returns an error (commands are C22), over all paths, with every call that can fail split into success and failure (calls of functions that are not followed: other operations of the module, the standard library, other libraries). Rule: at every return without an error, none of these calls has failed.",
		Assume:  []string{"a function fails when, and only when, the error it returns is not nil"}})
}

func checkC30(c *Ctx) {
	for _, fn := range c.P.Funcs {
		if fn.Parent() != nil || len(fn.Blocks) == 0 || fn.Synthetic != "" || fn.Object() == nil {
			continue
		}
		res := fn.Signature.Results()
		if res.Len() == 0 || !isError(res.At(res.Len()-1).Type()) || fn.Pkg == nil || fn.Pkg.Pkg.Path() == modPath+"/"+cmdRel {
			continue
		}
		if strings.Contains(fn.Name(), "Wipe") {
			continue // they go on with zeros (C09)
		}
		c.errorsOf(fn)
	}
	c.Need("errors", 60)
}

func lastError(t types.Type) bool {
	if tp, ok := t.(*types.Tuple); ok {
		return tp.Len() > 0 && isError(tp.At(tp.Len()-1).Type())
	}
	return t != nil && isError(t)
}

// handled: a failure that is an answer.
func handled(n string) bool {
	if strings.HasPrefix(n, modPath+"/crand.Read") {
		return true // wiping goes on with zeros (C09), keys and salts are C04 and C15
	}
	switch n {
	case "os.Stat", "os.Lstat", "path/filepath.EvalSymlinks": // there is no such file
		return true
	}
	return strings.HasSuffix(n, "/go-password-validator.Validate") || // a warning, or asked again; who has to refuse is C11
		strings.HasSuffix(n, "Message).TryDecipherPlainText") // an attempt, C28 and C40
}

// neverFails: a function that returns no error but nil.
func neverFails(f *ssa.Function) bool {
	if f != nil && (strings.HasPrefix(f.String(), "(*strings.Builder).") || strings.HasPrefix(f.String(), "(*bytes.Buffer).Write")) {
		return true
	}
	if f == nil || len(f.Blocks) == 0 || f.Pkg == nil || !inModulePkg(f.Pkg.Pkg) {
		return false
	}
	for _, b := range f.Blocks {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(r.Results) > 0 {
			if k, ok := r.Results[len(r.Results)-1].(*ssa.Const); !ok || !k.IsNil() {
				return false
			}
		}
	}
	return true
}

func (c *Ctx) errorsOf(fn *ssa.Function) {
	name := fn.Name()
	var e *Engine
	opaque := func(f *ssa.Function) bool {
		if f == fn || f.Parent() != nil {
			return false
		}
		if rc := f.Signature.Recv(); rc != nil && c.P.InModule(f) {
			nm, ok := pointeeOr(rc.Type()).(*types.Named)
			return !ok || nm.Obj().Exported() || len(e.info(f).loops) > 0
		}
		return true
	}
	e = c.NewEngine(Hooks{
		EssTag: func(t *Term) bool { return t.name == "failed" || t.name == "open" },
		Opaque: opaque,
		Call: func(e *Engine, st *State, cl *Call) ([]CallOut, bool) {
			if cl.Res == nil || !lastError(cl.Res) {
				return nil, false
			}
			n := cl.full()
			if n == "fmt.Errorf" || n == "errors.New" || strings.HasPrefix(n, "fmt.Fprint") || strings.HasPrefix(n, "fmt.Print") {
				return nil, false
			}
			if cl.Fn != nil && c.P.InModule(cl.Fn) && strings.Contains(cl.Fn.Name(), "Wipe") {
				return nil, false
			}
			if _, ok := cl.Site.(*ssa.Defer); ok {
				return nil, false
			}
			if cl.Fn != nil && (!opaque(cl.Fn) || e.isPart(cl.Fn, fn)) {
				return nil, false
			}
			e.effects(st, cl)
			failed := func(st *State, res []*Term) {
				if e.inDefer > 0 {
					return // like a deferred call; what it was to finish stays open
				}
				setTag(st, mkTag("failed", mkTag(strings.Replace(n, modPath, "", 1))), true)
			}
			switch {
			case cl.Fn != nil && neverFails(cl.Fn):
				return fallible(e, st, cl, nil, nil)[1:], true
			case handled(n):
				return fallible(e, st, cl, nil, nil), true
			case strings.HasSuffix(n, ").Close"):
				return fallible(e, st, cl, func(st *State, res []*Term) {
					setTag(st, mkTag("open", cl.Args[0]), false)
					for _, t := range tagsNamed(st.must, "closes") {
						if t.args[0] == cl.Args[0] {
							setTag(st, mkTag("open", t.args[1]), false)
						}
					}
				}, failed), true
			case strings.HasSuffix(n, encStream):
				// closing the stream closes the file
				return fallible(e, st, cl, func(st *State, res []*Term) {
					st.tag(mkTag("closes", res[0], unwrap(cl.Args[0])))
				}, failed), true
			case n == "os.OpenFile" || n == "os.Create" || n == "os.CreateTemp":
				if n == "os.OpenFile" {
					if k, ok := cl.Args[1].intVal(); ok && k&3 == 0 {
						break // for reading
					}
				}
				return fallible(e, st, cl, func(st *State, res []*Term) {
					setTag(st, mkTag("open", res[0]), true)
				}, failed), true
			}
			return fallible(e, st, cl, nil, failed), true
		},
		Return: func(e *Engine, st *State, f *ssa.Function, depth int, vals []*Term, pos token.Pos) {
			if depth != 0 || succeeds(st, f, vals) == -1 {
				return
			}
			ok := true
			for _, t := range tagsNamed(st.may, "failed") {
				ok = false
				c.Ob(false, "errors", name+" "+t.args[0].String(), pos, "%s may report success although %s failed", name, t.args[0])
			}
			for _, t := range tagsNamed(st.may, "open") {
				c.Ob(false, "closed", name, pos, "%s may report success without having closed %s, or without having looked whether that failed", name, what(t.args[0]))
				ok = false
			}
			if ok {
				c.Ob(true, "errors", name, pos, "")
			}
		},
	})
	e.Run(fn, nil)
}
